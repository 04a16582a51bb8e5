------------------------------ MODULE VibeCol ------------------------------
(***************************************************************************)
(* State machine of the library: writers, simple writers, files, readers   *)
(* and multi-file readers, one action per public call.  The linearization  *)
(* point of a call is its return.                                          *)
(*                                                                         *)
(* Objects are functions from names to records; calls that the API refuses *)
(* have no action: they leave the state unchanged (stuttering), which is   *)
(* exactly property C13.                                                   *)
(***************************************************************************)
EXTENDS ColFile

VARIABLES
  wr,      \* writers:        name -> [path, enc, target, end, blocks, st]   st: "open" | "closed"
  sw,      \* simple writers: name -> [w, pend, batches, total, closed]
  files,   \* path -> [fin, enc, target, blocks]; fin: finalized, i.e. can be opened
  rd,      \* readers:        name -> [path, cache, open]
  mr       \* multi readers:  name -> sequence of reader names, oldest first

vars == <<wr, sw, files, rd, mr>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
NoFile == [fin |-> FALSE, enc |-> 0, target |-> 0, blocks |-> <<>>]
Finished(enc, target, blocks) == [fin |-> TRUE, enc |-> enc, target |-> target, blocks |-> blocks]

VCInit == wr = <<>> /\ sw = <<>> /\ files = <<>> /\ rd = <<>> /\ mr = <<>>

FreshWriter(path, enc, target) ==
  [path |-> path, enc |-> enc, target |-> target, end |-> HeaderSize, blocks |-> <<>>, st |-> "open"]

(* ----------------------------- writer ---------------------------------- *)
NewWriter(x, path, enc, target) ==
  /\ wr' = Put(wr, x, FreshWriter(path, enc, target))
  /\ files' = Put(files, path, NoFile)
  /\ UNCHANGED <<sw, rd, mr>>

\* The block that a writer stores for the first n of the given pairs.
MkBlock(w, ids, vals, n) ==
  LET i == CTake(ids, n)
      v == CTake(vals, n)
  IN  [ids |-> i, vals |-> v, off |-> w.end, size |-> BlockSize(w.enc, i, v, w.end)]
AddBlock(w, b) == [w EXCEPT !.blocks = Append(@, b), !.end = b.off + b.size]

Writable(w) == w.st = "open" /\ w.enc \in Encodings
ValidBlock(ids, vals) == CLen(ids) = CLen(vals) /\ CLen(ids) > 0

\* A block write that stores the first n pairs (StoreBlock); the writer stores as many as fit.
StoreBlock(x, ids, vals, n) ==
  /\ Writable(wr[x]) /\ ValidBlock(ids, vals) /\ n \in 1..CLen(ids)
  /\ wr' = [wr EXCEPT ![x] = AddBlock(@, MkBlock(@, ids, vals, n))]
  /\ files' = Put(files, wr[x].path, NoFile)
  /\ UNCHANGED <<sw, rd, mr>>
WriteBlock(x, ids, vals) ==
  StoreBlock(x, ids, vals, FitN(wr[x].enc, ids, vals, wr[x].end, wr[x].target))

Finalize(x) ==
  /\ wr[x].st = "open"
  /\ files' = Put(files, wr[x].path, Finished(wr[x].enc, wr[x].target, wr[x].blocks))
  /\ UNCHANGED <<wr, sw, rd, mr>>
CloseWriter(x) ==
  /\ wr' = [wr EXCEPT ![x].st = "closed"]
  /\ UNCHANGED <<sw, files, rd, mr>>
FinalizeAndClose(x) ==
  /\ wr[x].st = "open"
  /\ wr' = [wr EXCEPT ![x].st = "closed"]
  /\ files' = Put(files, wr[x].path, Finished(wr[x].enc, wr[x].target, wr[x].blocks))
  /\ UNCHANGED <<sw, rd, mr>>

(* -------------------------- simple writer ------------------------------- *)
CONSTANT FlushAt                 \* pending pairs from which a write flushes

NewSimple(x, path, enc, target) ==
  /\ sw' = Put(sw, x, [w |-> FreshWriter(path, enc, target), ids |-> <<>>, vals |-> <<>>,
                       batches |-> <<>>, total |-> 0, closed |-> FALSE])
  /\ files' = Put(files, path, NoFile)
  /\ UNCHANGED <<wr, rd, mr>>

\* Write pending pairs as blocks: while force or enough are pending.
RECURSIVE Flush(_, _)
Flush(s, force) ==
  IF s.ids = <<>> \/ (~force /\ Len(s.ids) < FlushAt) THEN s
  ELSE LET n == FitN(s.w.enc, s.ids, s.vals, s.w.end, s.w.target)
           m == Len(s.ids)
       IN  Flush(TLCEval([s EXCEPT !.w = AddBlock(@, MkBlock(@, s.ids, s.vals, n)),
                                   !.ids = SubSeq(@, n+1, m), !.vals = SubSeq(@, n+1, m),
                                   !.total = @ + n]), force)

\* A batch is appended sorted by id; sb is the sorted sequence of its pairs.
SimpleWrite(x, ids, vals, sb) ==
  /\ ~sw[x].closed /\ sw[x].w.enc \in Encodings
  /\ Len(ids) = Len(vals)
  /\ SameBag(sb, PairsOf(ids, vals)) /\ \A i \in 2..Len(sb) : ~WULess(sb[i][1], sb[i-1][1])
  /\ sw' = [sw EXCEPT ![x] =
       IF ids = <<>> THEN @
       ELSE Flush(TLCEval([@ EXCEPT !.ids = @ \o [i \in 1..Len(sb) |-> sb[i][1]],
                                    !.vals = @ \o [i \in 1..Len(sb) |-> sb[i][2]],
                                    !.batches = Append(@, [ids |-> ids, vals |-> vals])]), FALSE)]
  /\ UNCHANGED <<wr, files, rd, mr>>
SimpleTarget(x, target) ==
  /\ ~sw[x].closed
  /\ sw' = [sw EXCEPT ![x].w.target = target]
  /\ UNCHANGED <<wr, files, rd, mr>>
SimpleClose(x) ==
  /\ ~sw[x].closed
  /\ LET s == Flush(sw[x], TRUE)
     IN  /\ sw' = [sw EXCEPT ![x] = [s EXCEPT !.closed = TRUE]]
         /\ files' = Put(files, s.w.path, Finished(s.w.enc, s.w.target, s.w.blocks))
  /\ UNCHANGED <<wr, rd, mr>>

(* ------------------------------ readers --------------------------------- *)
Open(r, path) ==
  /\ path \in DOMAIN files /\ files[path].fin
  /\ rd' = Put(rd, r, [path |-> path, cache |-> FALSE, open |-> TRUE])
  /\ UNCHANGED <<wr, sw, files, mr>>
CloseReader(r) ==
  /\ rd' = [rd EXCEPT ![r].open = FALSE]
  /\ UNCHANGED <<wr, sw, files, mr>>
Caching(r, on) ==
  /\ rd' = [rd EXCEPT ![r].cache = on]
  /\ UNCHANGED <<wr, sw, files, mr>>
NewMulti(m, rs) ==
  /\ mr' = Put(mr, m, rs)
  /\ UNCHANGED <<wr, sw, files, rd>>

CloseMulti(m) ==
  /\ rd' = [r \in DOMAIN rd |-> IF \E i \in DOMAIN mr[m] : mr[m][i] = r THEN [rd[r] EXCEPT !.open = FALSE] ELSE rd[r]]
  /\ UNCHANGED <<wr, sw, files, mr>>

\* Results of the read calls: functions of the file alone (caching must not matter).
Content(r)         == files[rd[r].path].blocks
PairsResult(r, b)  == [ids |-> Content(r)[b+1].ids, vals |-> Content(r)[b+1].vals]
AggResult(r, allow, deny) == AggFiltered(Content(r), allow, deny)
BitmapResult(r)    == IdSet(Content(r))
MultiResult(m, allow) == AggMulti([i \in 1..Len(mr[m]) |-> Content(mr[m][i])], allow)

(* ----------------------------- invariants ------------------------------- *)
BlocksFit(enc, target, blocks) ==
  \A k \in DOMAIN blocks : Len(blocks[k].ids) > 1 => blocks[k].size <= target
BlocksAligned(blocks) ==
  \A k \in DOMAIN blocks :
    /\ blocks[k].off = (IF k = 1 THEN HeaderSize ELSE blocks[k-1].off + blocks[k-1].size)
    /\ (blocks[k].off + blocks[k].size) % PageSize = 0
    /\ blocks[k].size >= RawSize(0, <<>>, <<>>)
=============================================================================
