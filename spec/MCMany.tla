------------------------------- MODULE MCMany -------------------------------
(***************************************************************************)
(* Several objects with overlapping lifetimes: a writer and two simple     *)
(* writers, each with a file of its own, readers of whatever is finished,  *)
(* a reader of a collection, filters of the caller's, and a slice that a   *)
(* read returned and the caller may scribble on.  Checks C17, C19, C20 on  *)
(* the specification against what was handed to each object (ghosts).      *)
(***************************************************************************)
EXTENDS VibeCol

CONSTANTS Encs, Ids, Vals, MaxLen, MaxWrites, MaxOpens, MaxReads

VARIABLES
  log,     \* ghost: path -> what was accepted for it: [enc, blocks, batches, pairs]
  held,    \* slices a reader returned: [key: <<reader, block>>, now: their content now]
  kept,    \* blocks that the library holds on to (nothing, in a correct design)
  flt,     \* the caller's filter
  last,    \* the last read: what was asked and what came back
  moves    \* bounds: writes and reads so far

allvars == <<wr, sw, files, rd, mr, log, held, kept, flt, last, moves>>
ghosts  == <<log, held, kept, flt, last>>

W(n) == WSmall(n)
MCIds  == {W(0), W(5)}
MCVals == {W(1), <<8,0,0>>}
OneVal == {W(1)}
Inputs == UNION { {<<i, v>> : i \in [1..k -> Ids], v \in [1..k -> Vals]} : k \in 1..MaxLen }
Paths == {"a", "b", "c"}
Target == 16

None == [what |-> "none"]
Init == /\ VCInit /\ log = <<>> /\ held = <<>> /\ kept = <<>> /\ last = None
        /\ flt \in SUBSET Ids
        /\ moves = [writes |-> 0, reads |-> 0]

Fresh(p)  == p \notin DOMAIN files
NewLog(p, e) == log' = Put(log, p, [enc |-> e, blocks |-> 0, batches |-> <<>>, pairs |-> <<>>])
Wrote == moves' = [moves EXCEPT !.writes = @ + 1]
Room  == moves.writes < MaxWrites

NewW == Fresh("a") /\ \E e \in Encs : NewWriter("w", "a", e, Target) /\ NewLog("a", e)
        /\ UNCHANGED <<held, kept, flt, last, moves>>
NewS(x, p) == Fresh(p) /\ \E e \in Encs : NewSimple(x, p, e, Target) /\ NewLog(p, e)
              /\ UNCHANGED <<held, kept, flt, last, moves>>
Write == "w" \in DOMAIN wr /\ Room /\ \E p \in Inputs :
           LET n == FitN(wr["w"].enc, p[1], p[2], wr["w"].end, wr["w"].target)
           IN  /\ WriteBlock("w", p[1], p[2])
               /\ log' = [log EXCEPT !["a"].blocks = @ + 1, !["a"].pairs = @ \o SubSeq(PairsOf(p[1], p[2]), 1, n)]
               /\ Wrote /\ UNCHANGED <<held, kept, flt, last>>
SWrite(x) == x \in DOMAIN sw /\ Room /\ \E p \in Inputs :
               /\ SimpleWrite(x, p[1], p[2], SortBatch([ids |-> p[1], vals |-> p[2]]))
               /\ log' = [log EXCEPT ![sw[x].w.path].batches = Append(@, [ids |-> p[1], vals |-> p[2]])]
               /\ Wrote /\ UNCHANGED <<held, kept, flt, last>>
End(x)  == x \in DOMAIN wr /\ FinalizeAndClose(x) /\ UNCHANGED <<ghosts, moves>>
SEnd(x) == x \in DOMAIN sw /\ SimpleClose(x) /\ UNCHANGED <<ghosts, moves>>

OpenR == /\ Cardinality(DOMAIN rd) < MaxOpens
         /\ \E p \in Paths : Open(Cardinality(DOMAIN rd) + 1, p)
         /\ UNCHANGED <<ghosts, moves>>
Collect == mr = <<>> /\ Cardinality(DOMAIN rd) = MaxOpens /\ NewMulti("m", [i \in 1..MaxOpens |-> i])
           /\ UNCHANGED <<ghosts, moves>>

(* ------------------- reads: they have results, and no effects ----------- *)
ReadOnly == UNCHANGED <<wr, sw, files, rd, mr, log>>
Asked == moves.reads < MaxReads /\ moves' = [moves EXCEPT !.reads = @ + 1]
\* What a read of a block gives, and what the library remembers of it.
Fetch(r, b) == PairsResult(r, b)
Remember(k, key, c) == k
\* The caller's filter after an aggregation over the collection.
FilterAfter(f, contents) == f
ReadPairs == Asked /\ ReadOnly /\ UNCHANGED flt /\ \E r \in DOMAIN rd : \E b \in 0..Len(Content(r))-1 :
               LET c == Fetch(r, b)
               IN  /\ last' = [what |-> "pairs", r |-> r, b |-> b, out |-> c]
                   /\ held' = <<[key |-> <<r, b>>, now |-> c]>>
                   /\ kept' = Remember(kept, <<r, b>>, c)
Aggregate == Asked /\ ReadOnly /\ UNCHANGED <<held, kept, flt>> /\ \E r \in DOMAIN rd : \E neg \in BOOLEAN :
               last' = [what |-> "agg", r |-> r, neg |-> neg, f |-> flt,
                        out |-> IF neg THEN AggResult(r, NoFilter, FilterOf(flt)) ELSE AggResult(r, FilterOf(flt), NoFilter)]
Bitmap == Asked /\ ReadOnly /\ UNCHANGED <<held, kept, flt>> /\ \E r \in DOMAIN rd :
               last' = [what |-> "bitmap", r |-> r, out |-> BitmapResult(r)]
\* What a reader says of its file.
Describe(r) == LET f == files[rd[r].path]
               IN  [enc |-> f.enc, iddelta |-> IdDelta(f.enc), valdelta |-> ValDelta(f.enc),
                    idvar |-> IdVar(f.enc), valvar |-> ValVar(f.enc), blocks |-> Len(f.blocks)]
Ask == Asked /\ ReadOnly /\ UNCHANGED <<held, kept, flt>> /\ \E r \in DOMAIN rd :
               last' = [what |-> "describe", r |-> r, out |-> Describe(r)]
Multi == Asked /\ ReadOnly /\ UNCHANGED <<held, kept>> /\ "m" \in DOMAIN mr /\
               /\ last' = [what |-> "multi", r |-> 0, f |-> flt, out |-> MultiResult("m", FilterOf(flt))]
               /\ flt' = FilterAfter(flt, [i \in 1..Len(mr["m"]) |-> Content(mr["m"][i])])
\* The caller changes what was returned.
Overwrite(k, key, c) == k
Scribble == /\ held # <<>> /\ held[1].now.ids # <<>>
            /\ held' = [held EXCEPT ![1].now.ids[1] = WMaxU]
            /\ held' # held
            /\ kept' = Overwrite(kept, held[1].key, held'[1].now)
            /\ UNCHANGED <<wr, sw, files, rd, mr, log, flt, last, moves>>

Read == ReadPairs \/ Aggregate \/ Bitmap \/ Ask \/ Multi
Next == \/ NewW \/ NewS("s", "b") \/ NewS("t", "c")
        \/ Write \/ SWrite("s") \/ SWrite("t") \/ End("w") \/ SEnd("s") \/ SEnd("t")
        \/ OpenR \/ Collect \/ Read \/ Scribble
Spec == Init /\ [][Next]_allvars

(* ------------------------------ properties ------------------------------ *)
\* C19: every object and file holds exactly what was handed to it.
Independent ==
  /\ "w" \in DOMAIN wr => PairsOf(ConcatIds(wr["w"].blocks), ConcatVals(wr["w"].blocks)) = log["a"].pairs
  /\ \A x \in DOMAIN sw : LET s == sw[x] IN
       MatchBatches(ConcatIds(s.w.blocks) \o s.ids, ConcatVals(s.w.blocks) \o s.vals, log[s.w.path].batches, 1)
  /\ \A p \in DOMAIN files : files[p].fin =>
       IF p = "a" THEN PairsOf(ConcatIds(files[p].blocks), ConcatVals(files[p].blocks)) = log[p].pairs
       ELSE MatchBatches(ConcatIds(files[p].blocks), ConcatVals(files[p].blocks), log[p].batches, 1)
\* C17, C20: whatever was asked, in whatever order and after whatever else, the answer is the file's.
PairsIn(p) == IF p = "a" THEN log[p].pairs ELSE FoldLeft(LAMBDA a, b : a \o SortBatch(b), <<>>, log[p].batches)
Truth(pairs, Sel(_)) == FoldLeft(LAMBDA a, x : IF Sel(x[1]) THEN AggAdd(a, x[2]) ELSE a, ZeroAgg, pairs)
BlockPairs(r, b) == LET before == FoldLeft(LAMBDA n, k : n + Len(Content(r)[k].ids), 0, [k \in 1..b |-> k])
                    IN  SubSeq(PairsIn(rd[r].path), before + 1, before + Len(Content(r)[b+1].ids))
Answers ==
  CASE last.what = "pairs" -> PairsOf(last.out.ids, last.out.vals) = BlockPairs(last.r, last.b)
    [] last.what = "agg" -> LET sel(id) == (id \in last.f) # last.neg IN last.out = Truth(PairsIn(rd[last.r].path), sel)
    [] last.what = "bitmap" -> last.out = { p[1] : p \in Range(PairsIn(rd[last.r].path)) }
    [] last.what = "multi" ->
         LET ps == [i \in 1..Len(mr["m"]) |-> PairsIn(rd[mr["m"][i]].path)]
             sel(i, id) == id \in last.f /\ \A j \in i+1..Len(ps) : \A x \in Range(ps[j]) : x[1] # id
         IN  last.out = FoldLeft(LAMBDA a, i : LET s(id) == sel(i, id) IN AggMerge(a, Truth(ps[i], s)), ZeroAgg, [i \in 1..Len(ps) |-> i])
    [] OTHER -> TRUE
Described == last.what = "describe" =>
  LET g == log[rd[last.r].path]
      o == last.out
  IN  /\ o.enc = g.enc
      /\ o.iddelta = (g.enc % 4 = 1 \/ g.enc % 4 = 3) /\ o.valdelta = (g.enc % 4 \in {2, 3})
      /\ o.idvar = (g.enc \in {4, 5, 7}) /\ o.valvar = (g.enc \in {4, 6, 7})
      /\ rd[last.r].path = "a" => o.blocks = g.blocks
\* No step changes more than the object it is about; reads change no object, no file and no filter.
Touches == [][ /\ Cardinality({ x \in DOMAIN wr : wr'[x] # wr[x] }) + Cardinality({ x \in DOMAIN sw : sw'[x] # sw[x] }) <= 1
               /\ Cardinality({ p \in DOMAIN files : files'[p] # files[p] }) <= 1
               /\ \A r \in DOMAIN rd : rd'[r] = rd[r] /\ files'[rd[r].path] = files[rd[r].path]
               /\ flt' = flt
             ]_allvars
\* Something is read after everything was written and something was scribbled on (reachability; to be refuted).
NotAll == ~(DOMAIN files = Paths /\ (\A p \in Paths : files[p].fin) /\ last.what = "multi" /\ held # <<>> /\ held[1].now # PairsResult(held[1].key[1], held[1].key[2]))

(* ---------------- deliberately faulty designs, to be refuted ------------ *)
\* The simple writers share the array that holds what is pending.
BadSimpleWrite(x, ids, vals, sb) ==
  /\ ~sw[x].closed
  /\ LET s == sw[x]
         n == Flush([s EXCEPT !.ids = @ \o [i \in 1..Len(sb) |-> sb[i][1]], !.vals = @ \o [i \in 1..Len(sb) |-> sb[i][2]],
                              !.batches = Append(@, [ids |-> ids, vals |-> vals])], FALSE)
         over(old, new) == [i \in 1..Len(old) |-> IF i <= Len(new) THEN new[i] ELSE old[i]]
     IN  sw' = [y \in DOMAIN sw |-> IF y = x THEN n
                                    ELSE [sw[y] EXCEPT !.ids = over(@, n.ids), !.vals = over(@, n.vals)]]
  /\ UNCHANGED <<wr, files, rd, mr>>
\* The reader keeps a block it decoded, and hands out the same slices again.
BadFetch(r, b) == IF <<r, b>> \in DOMAIN kept THEN kept[<<r, b>>] ELSE PairsResult(r, b)
BadRemember(k, key, c) == Put(k, key, c)
BadOverwrite(k, key, c) == IF key \in DOMAIN k THEN [k EXCEPT ![key] = c] ELSE k
\* Blocks kept in the process by their number, not by reader.
BadFetchShared(r, b) == IF b \in DOMAIN kept THEN kept[b] ELSE PairsResult(r, b)
BadRememberShared(k, key, c) == Put(k, key[2], c)
\* Ids that newer files decide are taken out of the caller's filter.
BadFilterAfter(f, contents) == f \ UNION { IdSet(contents[i]) : i \in DOMAIN contents }
\* The flag of the ids is shown for the values.
BadDescribe(r) == LET f == files[rd[r].path]
                  IN  [enc |-> f.enc, iddelta |-> IdDelta(f.enc), valdelta |-> IdDelta(f.enc),
                       idvar |-> IdVar(f.enc), valvar |-> ValVar(f.enc), blocks |-> Len(f.blocks)]
=============================================================================
