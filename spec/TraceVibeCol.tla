---------------------------- MODULE TraceVibeCol ----------------------------
(***************************************************************************)
(* Trace validation.  The input is a JSON array of traces                  *)
(*    [name, labels, ev]                                                   *)
(* recorded from the real library: ev is the sequence of public calls with *)
(* arguments and results, in the order of their returns.  Each trace is a  *)
(* behaviour of its own (variable tid); each event is one step, an action  *)
(* of VibeCol.tla with the logged arguments and outcome.                   *)
(*                                                                         *)
(* Every fact that an event establishes about the implementation carries a *)
(* label.  A fact that does not hold is recorded in `bad' if its label is  *)
(* one that the trace asks for (its labels belong to one property); the    *)
(* state then follows what the implementation reported, so that the rest   *)
(* of the trace is still checked.                                          *)
(***************************************************************************)
EXTENDS VibeCol, Json, IOUtils, Layout, Disk

Traces == JsonDeserialize(IOEnv.VIBE_TRACE)

VARIABLES tid, l, bad,
          dk         \* path -> what is not yet on the disk (only with recorded file operations)

Labels == Range(Traces[tid].labels)
Ev     == Traces[tid].ev[l]
\* Fact c under label lab.
F(lab, c) == IF lab \in Labels /\ ~c THEN {<<l, lab>>} ELSE {}

SetOf(s) == { s[i] : i \in DOMAIN s }
Filt(f) == IF f.has THEN [has |-> TRUE, ids |-> SetOf(f.ids), ivs |-> SetOf(f.ivs)] ELSE NoFilter

\* Follow: state changes of the event; Facts: facts violated by it.
Same == UNCHANGED vars
Step(facts) == bad' = bad \cup facts

\* What is not on the disk of the file at path p.
Unsynced(p) == IF p \in DOMAIN dk THEN dk[p] ELSE CleanDisk

(* -------------------------------- writer -------------------------------- *)
\* Refused calls: invalid arguments, unsupported encoding, closed object.
RefusedBlock(w, ids, vals) == ~Writable(w) \/ ~ValidBlock(ids, vals)

\* A path whose writer could not be made.
NotMade(f) == files' = Put(files, f, NoFile) /\ UNCHANGED <<wr, sw, rd, mr>>

TNewWriter(e) == /\ IF e.r = "ok" THEN NewWriter(e.w, e.f, e.enc, e.target) ELSE NotMade(e.f)
                 /\ Step(F("write", e.r = "ok") \cup F("fault", e.must => e.r # "ok"))

TWriteBlock(e) ==
  LET w == wr[e.w]
      n == CLen(e.ids)
      exact == FitN(w.enc, e.ids, e.vals, w.end, w.target)
      k == IF e.r = "ok" THEN n ELSE e.n
  IN  IF RefusedBlock(w, e.ids, e.vals)
      THEN Same /\ Step(F("reject", e.r = "err"))
      ELSE IF e.r = "err"
      THEN Same /\ Step(F("write", e.fault))
      ELSE IF k \notin 1..n
      THEN Same /\ Step(F("write", FALSE) \cup F("pack", FALSE))
      ELSE /\ StoreBlock(e.w, e.ids, e.vals, k)
           /\ Step(F("pack", k = exact /\ (e.r = "full" <=> k < n))
                   \cup F("write", e.r = "full" => k < n)
                   \cup F("fault", ~e.must)
                   \cup F("durable", LET b == MkBlock(w, e.ids, e.vals, k)
                                     IN  OnDisk(Unsynced(w.path), b.off, b.off + b.size))
                   \cup F("argsame", ~e.mut))

TEstimate(e) ==
  LET w == wr[e.w]
  IN  /\ Same
      /\ Step((IF w.enc \notin Encodings \/ ~ValidBlock(e.ids, e.vals)
               THEN F("reject", e.r = "err")
               ELSE IF w.st = "closed" THEN {}      \* unspecified after close
               ELSE F("est", e.r = "ok" /\ e.size = BlockSize(w.enc, e.ids, e.vals, w.end)))
              \cup F("argsame", ~e.mut))

\* Finalize / FinalizeAndClose.  After a failure the file is unfinished.
TFinalize(e) ==
  LET w == wr[e.w]
  IN  IF w.st = "closed" THEN Same /\ Step(F("reject", e.r = "err"))
      ELSE IF e.r = "ok"
      THEN /\ IF e.close THEN FinalizeAndClose(e.w) ELSE Finalize(e.w)
           /\ Step(F("fault", ~e.must) \cup F("durable", AllOnDisk(Unsynced(w.path))))
      ELSE /\ files' = Put(files, w.path, [NoFile EXCEPT !.fin = FALSE])
           /\ UNCHANGED <<wr, sw, rd, mr>>
           /\ Step(F("write", e.fault))

TCloseWriter(e) == CloseWriter(e.w) /\ Step(F("fault", e.must => e.r = "err"))

(* ----------------------------- simple writer ---------------------------- *)
(* The trace specification follows the accepted batches and the total only: *)
(* when pending pairs are flushed is the writer's choice, so the blocks are *)
(* adopted from what the reader finds (event "dump"), after checking that   *)
(* they hold the accepted batches.                                          *)
TNewSimple(e) == /\ IF e.r = "ok" THEN NewSimple(e.s, e.f, e.enc, e.target) ELSE NotMade(e.f)
                 /\ Step(F("write", e.r = "ok") \cup F("fault", e.must => e.r # "ok"))

TSimpleWrite(e) ==
  LET s == sw[e.s]
      accept == ~s.closed /\ CLen(e.ids) = CLen(e.vals)
      sz == FoldLeft(LAMBDA a, b : a + CLen(b.ids), 0, s.batches)
      known == s.w.enc \in Encodings
  IN  IF ~accept
      THEN Same /\ Step(F("reject", e.r = "err") \cup F("stotal", e.total = s.total))
      ELSE \* a batch whose write failed on an I/O error is kept
           /\ sw' = [sw EXCEPT ![e.s] =
                 IF e.ids = <<>> THEN @
                 ELSE [@ EXCEPT !.batches = Append(@, [ids |-> e.ids, vals |-> e.vals]), !.total = e.total]]
           /\ UNCHANGED <<wr, files, rd, mr>>
           /\ Step(F("write", e.r = "ok" \/ e.fault \/ ~known)
                   \cup F("reject", e.ids = <<>> => e.r = "ok")
                   \cup F("fault", e.must => e.r = "err")
                   \cup F("argsame", ~e.mut)
                   \cup F("stotal", e.total >= s.total /\ e.total <= sz + CLen(e.ids)))

TSimpleTarget(e) ==
  IF sw[e.s].closed THEN Same /\ Step(F("reject", e.r = "err"))
  ELSE SimpleTarget(e.s, e.target) /\ Step(F("write", e.r = "ok"))

\* After close the file exists with the accepted batches; its blocks are not known yet.
TSimpleClose(e) ==
  LET s == sw[e.s]
      sz == FoldLeft(LAMBDA a, b : a + CLen(b.ids), 0, s.batches)
  IN  IF s.closed
      THEN Same /\ Step(F("reject", e.r = "ok" /\ e.total = s.total) \cup F("sclosed", e.closed))
      ELSE IF s.w.enc \notin Encodings /\ sz > 0
      THEN Same /\ Step(F("reject", e.r = "err"))
      ELSE IF e.r = "ok"
      THEN /\ sw' = [sw EXCEPT ![e.s].closed = TRUE, ![e.s].total = e.total]
           /\ files' = Put(files, s.w.path, Finished(s.w.enc, s.w.target, <<>>))
           /\ UNCHANGED <<wr, rd, mr>>
           /\ Step(F("stotal", e.total = sz) \cup F("fault", ~e.must) \cup F("durable", AllOnDisk(Unsynced(s.w.path)))
                    \cup F("sclosed", e.closed))
      ELSE \* some of the pending pairs may have been written
           /\ sw' = [sw EXCEPT ![e.s].total = e.total]
           /\ UNCHANGED <<wr, files, rd, mr>>
           /\ Step(F("write", e.fault) \cup F("stotal", e.total >= s.total /\ e.total <= sz))

(* ------------------------------- readers -------------------------------- *)
\* Number of operations that failed in the call.  A call that had any may return an error; so may calls
\* of a closed reader.
Hits(e) == IF "hits" \in DOMAIN e THEN e.hits ELSE 0
Excused(e) == e.r = "err" /\ (Hits(e) > 0 \/ ~rd[e.rd].open)

\* The file of a reader that could not be opened stays unknown: no further events refer to it.
TOpen(e) ==
  LET known == e.f \in DOMAIN files /\ files[e.f].fin
  IN  IF e.r = "ok" /\ known
      THEN Open(e.rd, e.f) /\ Step({})
      ELSE Same /\ Step(IF known THEN F("open", e.r = "err" /\ Hits(e) > 0) ELSE F("openbad", e.r = "err"))

\* What the reader says about the file.
TDescribe(e) ==
  LET f == files[rd[e.rd].path]
  IN  /\ Same
      /\ Step(F("desc", /\ e.version = 1 /\ e.enc = f.enc /\ e.nblocks = Len(f.blocks)
                        /\ e.delta = (f.enc \in {1, 2, 3}) /\ e.varint = (f.enc \in {4, 5, 6, 7})))

TPairs(e) ==
  LET bs == Content(e.rd)
  IN  /\ Same
      /\ Step(IF e.b \in 0..Len(bs)-1
              THEN F("pairs", Excused(e) \/ (e.r = "ok" /\ e.ids = bs[e.b+1].ids /\ e.vals = bs[e.b+1].vals))
              ELSE F("reject", e.r = "err") \cup F("range", e.r = "err"))

\* All blocks of the file, read in order.  kind "w": the file of a writer; kind "s": of a simple writer.
TDump(e) ==
  LET p == rd[e.rd].path
      got == e.blocks
      okw == e.r = "ok" /\ Len(got) = Len(files[p].blocks)
             /\ \A k \in DOMAIN got : got[k].ids = files[p].blocks[k].ids /\ got[k].vals = files[p].blocks[k].vals
      oks == e.r = "ok" /\ MatchBatches(ConcatIds(got), ConcatVals(got), sw[e.o].batches, 1)
      place(a, b) == LET pos == IF a = <<>> THEN HeaderSize ELSE a[Len(a)].off + a[Len(a)].size
                     IN  Append(a, [ids |-> b.ids, vals |-> b.vals, off |-> pos,
                                    size |-> BlockSize(files[p].enc, b.ids, b.vals, pos)])
      okc == CASE e.kind = "s" -> oks
               [] e.kind = "c" -> e.r = "ok" /\ SameCol(ConcatIds(got), sw[e.o].ids) /\ SameCol(ConcatVals(got), sw[e.o].vals)
               [] e.kind = "n" -> e.r = "ok" /\ FoldLeft(LAMBDA a, b : a + CLen(b.ids), 0, got) = e.o
  IN  IF Excused(e) THEN Same /\ Step({})
      ELSE IF e.kind = "w" THEN Same /\ Step(F("dump", okw))
      ELSE IF e.kind \in {"c", "n"}
      THEN /\ files' = [files EXCEPT ![p].blocks = [k \in DOMAIN got |-> [ids |-> got[k].ids, vals |-> got[k].vals, off |-> 0, size |-> 0]]]
           /\ UNCHANGED <<wr, sw, rd, mr>>
           /\ Step(F("cmd", okc))
      ELSE IF e.r # "ok" THEN Same /\ Step(F("sdump", FALSE) \cup F("dump", FALSE))
      ELSE /\ files' = [files EXCEPT ![p].blocks = FoldLeft(place, <<>>, got)]
           /\ UNCHANGED <<wr, sw, rd, mr>>
           /\ Step(F("sdump", oks) \cup F("dump", oks)
                   \cup F("cap", \A k \in DOMAIN got : CLen(got[k].ids) > 1 =>
                                   files'[p].blocks[k].size <= files[p].target))

\* Every part of an aggregate.
SameAgg(e, x) == e.count = x.count /\ e.min = x.min /\ e.max = x.max /\ e.sum = x.sum /\ e.avgok
\* The minimum and maximum of nothing are property C16's business.
AggOK(e, x) == IF x.count = 0 THEN e.count = 0 /\ e.sum = W0 /\ e.avgok ELSE SameAgg(e, x)

TAggregate(e) ==
  LET bs == Content(e.rd)
      allow == Filt(e.allow)
      deny == Filt(e.deny)
      x == AggFiltered(bs, allow, deny)
      lossy == Hits(e) > 0 \/ ~rd[e.rd].open
      \* Blocks that cannot be read are left out.
      left == IF rd[e.rd].open THEN Hits(e) ELSE Len(bs)
      partial == \E M \in SUBSET DOMAIN bs :
                   /\ Cardinality(M) <= left
                   /\ LET rest == SelectSeq([k \in DOMAIN bs |-> k], LAMBDA k : k \notin M)
                      IN  AggOK(e, AggFiltered([k \in DOMAIN rest |-> bs[rest[k]]], allow, deny))
      lab == IF e.par # 0 THEN "aggp" ELSE IF allow.has \/ deny.has THEN "aggf" ELSE IF e.skip THEN "aggs" ELSE "aggm"
  IN  /\ Same
      /\ Step(F(lab, IF lossy THEN partial ELSE AggOK(e, x))
              \cup F("zero", x.count = 0 => SameAgg(e, ZeroAgg))
              \cup F("par", e.par # 0 /\ ~lossy => SameAgg(e, e.seq))
              \cup F("nomut", ~e.mut))

TIterator(e) ==
  LET bs == Content(e.rd)
  IN  /\ Same
      /\ Step(F("iter", CandidatesOK(bs, Filt(e.allow), Filt(e.deny), e.list)) \cup F("nomut", ~e.mut))

BitmapIs(s, S) == SetOf(s) = S /\ Len(s) = Cardinality(SetOf(s))
TBitmap(e) ==
  /\ Same
  /\ Step(F("bitmap", Excused(e) \/ (e.r = "ok" /\ BitmapIs(e.ids, BitmapResult(e.rd)))))
TCaching(e) == Caching(e.rd, e.on) /\ Step({})
TCloseReader(e) == CloseReader(e.rd) /\ Step(F("close", IF "must" \in DOMAIN e /\ e.must THEN e.r = "err" ELSE rd[e.rd].open => e.r = "ok"))

TNewMulti(e) == NewMulti(e.m, e.rds) /\ Step({})
\* All readers of the collection are open.
Whole(m) == \A i \in DOMAIN mr[m] : rd[mr[m][i]].open
TCloseMulti(e) ==
  /\ CloseMulti(e.m)
  /\ Step(F("close", IF e.must THEN e.r = "err" ELSE Whole(e.m) => e.r = "ok"))
TMultiAgg(e) ==
  LET x == MultiResult(e.m, Filt(e.allow))
  IN  /\ Same
      /\ Step(F("multi", (e.r = "err" /\ (Hits(e) > 0 \/ ~Whole(e.m))) \/ (e.r = "ok" /\ AggOK(e, x)))
              \cup F("zero", x.count = 0 => e.r = "ok" /\ SameAgg(e, ZeroAgg))
              \cup F("nomut", ~e.mut))

\* A file of pairs known from elsewhere (made by the specification, or by a command): path and blocks.
TGiven(e) ==
  /\ files' = Put(files, e.f, Finished(e.enc, e.target, [k \in DOMAIN e.blocks |->
                 [ids |-> e.blocks[k].ids, vals |-> e.blocks[k].vals, off |-> 0, size |-> 0]]))
  /\ UNCHANGED <<wr, sw, rd, mr>>
  /\ Step({})

\* A fact observed by the harness, to be compared with what it must be.
TFact(e) == Same /\ Step(F(e.label, e.got = e.want))

\* What the process has in use between two calls: files that are open (e.open), goroutines that were not there
\* before, and the files that exist.
OpenPaths == { rd[x].path : x \in { y \in DOMAIN rd : rd[y].open } }
WritePaths == { wr[x].path : x \in { y \in DOMAIN wr : wr[y].st # "closed" } }
              \cup { sw[x].w.path : x \in { y \in DOMAIN sw : ~sw[y].closed } }
THeld(e) ==
  /\ Same
  /\ Step(F("held", /\ e.gor = 0
                    /\ SetOf(e.open) \subseteq OpenPaths \cup WritePaths
                    /\ WritePaths = {} => /\ SetOf(e.names) \subseteq DOMAIN files
                                          /\ { p \in DOMAIN files : files[p].fin } \subseteq SetOf(e.names)))

\* The bytes of a finished file.
TImage(e) ==
  LET f == files[e.f]
  IN  /\ Same
      /\ Step(IF ~f.fin THEN {} ELSE
              F("layout", LayoutOK(e.bytes, f) /\ SamePairs(ReadFile(e.bytes), f.blocks) /\ SetOf(e.bmids) = IdSet(f.blocks)) \cup F("stats", StatsOK(e.bytes, f)) \cup F("sizes", SizesOK(e.bytes, f)))

\* Images of sizes from lo to hi that do not differ in what a reader looks at when it opens them.
TOpenImage(e) ==
  /\ Same
  /\ Step(F("accept", \A s \in {e.lo, e.hi} :
             IF Acceptable(s, e.head, e.count, e.tail) THEN e.r # "panic" ELSE e.r = "err"))

\* A crash while (or after) the file at path e.f was written left an image of it behind; e.n images had
\* the outcome e.r and content: it was refused, or it holds everything.  alt: the path of an earlier
\* complete version, or "".  must: everything had been reported as written.
TCrash(e) ==
  LET holds(p) == LET bs == files[p].blocks
                  IN  /\ Len(e.blocks) = Len(bs)
                      /\ \A k \in DOMAIN bs : e.blocks[k].ids = bs[k].ids /\ e.blocks[k].vals = bs[k].vals
                      /\ BitmapIs(e.ids, IdSet(bs))
                      /\ AggOK(e, AggAll(bs))
      complete == e.r = "ok" /\ (holds(e.f) \/ (e.alt # "" /\ holds(e.alt)))
  IN  Same /\ Step(IF e.must THEN F("durable", complete) ELSE F("crash", e.r = "err" \/ complete))

\* The process could have died during (or after) the call that comes next (or came last): an image of
\* the file e.f that was not refused.  It holds the blocks of the writer, or the first batches of a simple
\* writer.
TPeek(e) ==
  LET bs == IF e.kind = "w" THEN wr[e.o].blocks ELSE e.blocks
      whole == /\ Len(e.blocks) = Len(bs)
               /\ \A k \in DOMAIN bs : e.blocks[k].ids = bs[k].ids /\ e.blocks[k].vals = bs[k].vals
               /\ BitmapIs(e.ids, IdSet(bs))
               /\ AggOK(e, AggAll(bs))
      batches == sw[e.o].batches
      known == e.kind = "s" => \E k \in 0..Len(batches) :
                 MatchBatches(ConcatIds(e.blocks), ConcatVals(e.blocks), SubSeq(batches, 1, k), 1)
  IN  Same /\ Step(F("crash", whole /\ known))

\* An operation on the file.
TIO(e) ==
  LET d == Unsynced(e.f)
  IN  /\ dk' = Put(dk, e.f, CASE e.k = "w" -> DiskWrite(d, e.off, e.len)
                              [] e.k = "t" -> DiskTruncate(d, e.off)
                              [] e.k = "s" -> DiskSync(d)
                              [] e.k = "x" -> DiskLose(d))
      /\ Same /\ Step({})

(* ------------------------------- commands ------------------------------- *)
(* A command is a process that uses the library; its exit status and output *)
(* are its result.                                                          *)
Shown(e, x) == e.count = x.count /\ e.min = x.min /\ e.max = x.max /\ e.sum = x.sum /\ e.avgok
Readable(f) == f \in DOMAIN files /\ files[f].fin

\* "vibecol write": what was asked for is kept in sw until the blocks are read ("dump" of kind "c").
TCmdWrite(e) ==
  LET fits == FitN(0, e.ids, e.vals, HeaderSize, 16384) = Len(e.ids)
  IN  IF e.exit = 0
      THEN /\ sw' = Put(sw, e.c, [ids |-> e.ids, vals |-> e.vals])
           /\ files' = Put(files, e.f, Finished(0, 16384, <<>>))
           /\ UNCHANGED <<wr, rd, mr>>
           /\ Step(F("cmd", e.valid /\ e.n = Len(e.ids) /\ ~e.must))
      ELSE /\ files' = IF Readable(e.f) THEN files ELSE Put(files, e.f, NoFile)
           /\ UNCHANGED <<wr, sw, rd, mr>>
           /\ Step(F("cmd", (~e.valid \/ ~fits \/ e.fault) /\ e.exit > 0
                            /\ (e.left \in {"none", "refused"} \/ (e.fault /\ e.left = "complete"))))

\* "vibecol read" of a file whose content is known, or that is not complete, or
\* whose reads fail from some point on ("fault").
TCmdRead(e) ==
  LET bs == files[e.f].blocks
  IN  /\ Same
      /\ Step(F("cmd", IF Readable(e.f) /\ ~e.fault
                 THEN /\ e.exit = 0 /\ e.wellformed /\ e.version = 1 /\ e.nblocks = Len(bs)
                      /\ IF e.dump THEN e.ids = ConcatIds(bs) /\ e.vals = ConcatVals(bs) ELSE e.ids = <<>>
                      /\ e.agg => Shown(e, AggAll(bs))
                 ELSE e.exit > 0))

TCmdAggregate(e) ==
  LET bs == files[e.f].blocks
  IN  /\ Same
      /\ Step(F("cmd", IF Readable(e.f) /\ ~e.fault
                 THEN /\ e.exit = 0 /\ e.version = 1 /\ e.enc = files[e.f].enc /\ e.nblocks = Len(bs)
                      /\ Shown(e, AggAll(bs)) /\ e.scan = AggAll(bs).count
                 ELSE e.exit > 0))

\* "loadtest import": only the number of items is known; the blocks are adopted ("dump" of kind "n").
TCmdImport(e) ==
  IF e.exit = 0
  THEN /\ files' = Put(files, e.f, Finished(7, e.target, <<>>))
       /\ UNCHANGED <<wr, sw, rd, mr>>
       /\ Step(F("cmd", e.values = e.n /\ e.items = e.n /\ ~e.must))
  ELSE /\ files' = Put(files, e.f, NoFile)
       /\ UNCHANGED <<wr, sw, rd, mr>>
       /\ Step(F("cmd", e.fault /\ e.exit > 0 /\ e.left \in {"none", "refused", "complete"}))

Act(e) ==
  IF "rd" \in DOMAIN e /\ e.op # "open" /\ e.rd \notin DOMAIN rd THEN Same /\ Step({}) ELSE
  CASE e.op = "wnew"    -> TNewWriter(e)
    [] e.op = "wblock"  -> TWriteBlock(e)
    [] e.op = "west"    -> TEstimate(e)
    [] e.op = "wfin"    -> TFinalize(e)
    [] e.op = "wclose"  -> TCloseWriter(e)
    [] e.op = "snew"    -> TNewSimple(e)
    [] e.op = "swrite"  -> TSimpleWrite(e)
    [] e.op = "starget" -> TSimpleTarget(e)
    [] e.op = "sclose"  -> TSimpleClose(e)
    [] e.op = "open"    -> TOpen(e)
    [] e.op = "desc"    -> TDescribe(e)
    [] e.op = "pairs"   -> TPairs(e)
    [] e.op = "dump"    -> TDump(e)
    [] e.op = "agg"     -> TAggregate(e)
    [] e.op = "iter"    -> TIterator(e)
    [] e.op = "bitmap"  -> TBitmap(e)
    [] e.op = "cache"   -> TCaching(e)
    [] e.op = "rclose"  -> TCloseReader(e)
    [] e.op = "mnew"    -> TNewMulti(e)
    [] e.op = "magg"    -> TMultiAgg(e)
    [] e.op = "mclose"  -> TCloseMulti(e)
    [] e.op = "given"   -> TGiven(e)
    [] e.op = "fact"    -> TFact(e)
    [] e.op = "held"    -> THeld(e)
    [] e.op = "image"   -> TImage(e)
    [] e.op = "openimg" -> TOpenImage(e)
    [] e.op = "crash"   -> TCrash(e)
    [] e.op = "peek"    -> TPeek(e)
    [] e.op = "cmdwrite"  -> TCmdWrite(e)
    [] e.op = "cmdread"   -> TCmdRead(e)
    [] e.op = "cmdagg"    -> TCmdAggregate(e)
    [] e.op = "cmdimport" -> TCmdImport(e)

TraceInit == VCInit /\ tid \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ dk = <<>>
TraceStep == /\ l <= Len(Traces[tid].ev)
             /\ IF Ev.op = "io" THEN TIO(Ev) ELSE Act(Ev) /\ UNCHANGED dk
             /\ l' = l + 1
             /\ tid' = tid
\* Report: one line per finished trace.
TraceEnd  == /\ l = Len(Traces[tid].ev) + 1
             /\ PrintT(<<"TRACE", tid, Len(Traces[tid].ev), bad>>)
             /\ l' = l + 1
             /\ UNCHANGED <<vars, tid, bad, dk>>
TraceNext == TraceStep \/ TraceEnd
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l, bad, dk>>

Conforms == bad = {}
=============================================================================
