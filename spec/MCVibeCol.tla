----------------------------- MODULE MCVibeCol -----------------------------
(***************************************************************************)
(* Exhaustive configuration: 10-bit words (G = 1), tiny pages, few blocks. *)
(* Checks the properties on the specification itself.                      *)
(***************************************************************************)
EXTENDS VibeCol

CONSTANTS Encs, Targets, MaxBlocks, MaxBatches, Ids, Vals, MaxLen

VARIABLE calls      \* ghost: pairs accepted by the writer, in order

MCIds == {<<0,0,0>>, <<0,0,5>>, <<15,7,7>>}
MCVals == {<<0,0,1>>, <<8,0,0>>}
MCIds4 == {<<0,0,0>>, <<0,0,5>>, <<8,0,0>>, <<15,7,7>>}
MCVals4 == {<<0,0,0>>, <<0,0,1>>, <<8,0,0>>, <<15,7,7>>}

Seqs(S, n) == UNION { [1..k -> S] : k \in 0..n }
W(n) == WSmall(n)
\* All pair sequences up to MaxLen.
Inputs == { <<i, v>> \in Seqs(Ids, MaxLen) \X Seqs(Vals, MaxLen) : Len(i) = Len(v) /\ i # <<>> }

Init == VCInit /\ calls = <<>>

MCNewW == wr = <<>> /\ sw = <<>> /\ \E e \in Encs, t \in Targets : NewWriter(1, "a", e, t) /\ UNCHANGED calls
MCWrite == 1 \in DOMAIN wr /\ Len(wr[1].blocks) < MaxBlocks
           /\ \E p \in Inputs :
                /\ WriteBlock(1, p[1], p[2])
                /\ LET n == FitN(wr[1].enc, p[1], p[2], wr[1].end, wr[1].target)
                   IN  calls' = calls \o SubSeq(PairsOf(p[1], p[2]), 1, n)
MCFin == 1 \in DOMAIN wr /\ FinalizeAndClose(1) /\ UNCHANGED calls
MCNewS == wr = <<>> /\ sw = <<>> /\ \E e \in Encs, t \in Targets : NewSimple(1, "a", e, t) /\ UNCHANGED calls
MCSWrite == 1 \in DOMAIN sw /\ Len(sw[1].batches) < MaxBatches
            /\ \E p \in Inputs : SimpleWrite(1, p[1], p[2], SortBatch([ids |-> p[1], vals |-> p[2]])) /\ UNCHANGED calls
MCSTarget == 1 \in DOMAIN sw /\ \E t \in Targets : t # sw[1].w.target /\ SimpleTarget(1, t) /\ UNCHANGED calls
MCSClose == 1 \in DOMAIN sw /\ SimpleClose(1) /\ UNCHANGED calls
MCOpen == "a" \in DOMAIN files /\ rd = <<>> /\ Open(1, "a") /\ UNCHANGED calls

Next == MCNewW \/ MCWrite \/ MCFin \/ MCNewS \/ MCSWrite \/ MCSTarget \/ MCSClose \/ MCOpen
Spec == Init /\ [][Next]_<<vars, calls>>

(* --------------------------- properties --------------------------------- *)
Done == "a" \in DOMAIN files /\ files["a"].fin
B == files["a"].blocks
Filters == { NoFilter } \cup { FilterOf(S) : S \in SUBSET Ids }

\* C01/C13: the file holds exactly what the writer acknowledged.
ExactlyOnce == Done /\ 1 \in DOMAIN wr => PairsOf(ConcatIds(B), ConcatVals(B)) = calls
\* C02
Packed == /\ 1 \in DOMAIN wr => BlocksFit(wr[1].enc, wr[1].target, wr[1].blocks) /\ BlocksAligned(wr[1].blocks)
          /\ 1 \in DOMAIN sw => BlocksAligned(sw[1].w.blocks)
\* The number of pairs stored is what the property says, for every possible next write.
FitRight == 1 \in DOMAIN wr /\ wr[1].st = "open" => \A p \in Inputs :
  LET w == wr[1]
      len == Len(p[1])
      size(k) == BlockSize(w.enc, SubSeq(p[1], 1, k), SubSeq(p[2], 1, k), w.end)
      n == FitN(w.enc, p[1], p[2], w.end, w.target)
  IN  IF len = 1 \/ size(len) <= w.target THEN n = len
      ELSE /\ n \in 1..len-1
           /\ n > 1 => size(n) <= w.target
           /\ \A k \in n+1..len-1 : size(k) > w.target
\* C03: nothing lost, nothing invented, at every moment.
SimpleExact == 1 \in DOMAIN sw =>
  LET s == sw[1]
  IN  /\ MatchBatches(ConcatIds(s.w.blocks) \o s.ids, ConcatVals(s.w.blocks) \o s.vals, s.batches, 1)
      /\ s.total = Len(ConcatIds(s.w.blocks))
      /\ s.closed => s.ids = <<>> /\ B = s.w.blocks
\* C04
StatsTruthful == Done => AggStored(B) = AggAll(B)
\* C05
PruningSound == Done => \A a \in Filters, d \in Filters :
  LET c == PruneByRange(B, a)
      visited == [i \in 1..Len(c) |-> B[c[i]+1]]
  IN  /\ CandidatesOK(B, a, d, c)
      /\ AggFiltered(visited, a, d) = AggFiltered(B, a, d)
\* C06: any number of workers, merging partial results in ascending or descending order (ParAgg.tla
\* explores all orders).
ParallelSame == Done => \A w \in 1..(Len(B) + 2) :
  LET part(k) == LET ch == Chunk(Len(B), w, k-1) IN AggAll(SubSeq(B, ch.lo + 1, ch.hi))
  IN  /\ FoldLeft(LAMBDA a, k : AggMerge(a, part(k)), ZeroAgg, [k \in 1..w |-> k]) = AggAll(B)
      /\ FoldLeft(LAMBDA a, k : AggMerge(a, part(k)), ZeroAgg, [k \in 1..w |-> w + 1 - k]) = AggAll(B)
\* C07: newest wins, computed by the growing deny set, for collections made of the file's blocks.
MultiSame == Done => \A a \in Filters :
  LET cs == [k \in 1..Len(B) |-> <<B[k]>>] IN AggMultiPass(cs, a) = AggMulti(cs, a)
\* C16
EmptyZero == Done => \A d \in Filters : (d.has /\ IdSet(B) \subseteq d.ids) => AggFiltered(B, NoFilter, d) = [count |-> 0, min |-> W0, max |-> W0, sum |-> W0]
(* ------------- deliberately faulty designs, to be refuted ---------------- *)
\* Blocks whose range only touches the filter's are left out.
BadPrune(blocks, allow) ==
  IF ~allow.has \/ allow.ids = {} THEN [k \in 1..Len(blocks) |-> k - 1]
  ELSE LET lo == CHOOSE x \in allow.ids : \A y \in allow.ids : WULeq(x, y)
           hi == CHOOSE x \in allow.ids : \A y \in allow.ids : WULeq(y, x)
       IN  SelectSeq([k \in 1..Len(blocks) |-> k - 1],
                     LAMBDA k : LET s == Stats(blocks[k+1]) IN ~(WULeq(s.maxid, lo) \/ WULeq(hi, s.minid)))
\* Ids compared as signed words.
SignedPrune(blocks, allow) ==
  IF ~allow.has \/ allow.ids = {} THEN [k \in 1..Len(blocks) |-> k - 1]
  ELSE LET lo == CHOOSE x \in allow.ids : \A y \in allow.ids : WULeq(x, y)
           hi == CHOOSE x \in allow.ids : \A y \in allow.ids : WULeq(y, x)
       IN  SelectSeq([k \in 1..Len(blocks) |-> k - 1],
                     LAMBDA k : LET s == Stats(blocks[k+1]) IN ~(WSLess(s.maxid, lo) \/ WSLess(hi, s.minid)))
\* The magnitude of the smallest value taken for a negative zero.
BadUnSignMag(u) == IF u[1] >= TH THEN WNeg(<<u[1] - TH, u[2], u[3]>>) ELSE u
\* Padding forgotten when deciding what fits.
BadPaddedSize(raw, pos) == raw
\* Each file is only compared with the next newer one.
BadMultiPass(contents, allow) ==
  LET n == Len(contents)
      step(a, i) == LET c == contents[n + 1 - i]
                        r == AggFiltered(c, allow, FilterOf(a.deny))
                    IN  [deny |-> IdSet(c), agg |-> AggMerge(a.agg, r)]
  IN  FoldLeft(step, [deny |-> {}, agg |-> ZeroAgg], [i \in 1..n |-> i]).agg
\* A refused or partial write drops what did not fit.
BadFlush(s, force) ==
  IF s.ids = <<>> \/ (~force /\ Len(s.ids) < FlushAt) THEN s
  ELSE LET n == FitN(s.w.enc, s.ids, s.vals, s.w.end, s.w.target)
       IN  [s EXCEPT !.w = AddBlock(@, MkBlock(@, s.ids, s.vals, n)), !.ids = <<>>, !.vals = <<>>, !.total = @ + Len(s.ids)]
\* Partial results are merged starting from a zero minimum and maximum.
BadAggMerge(a, b) == [count |-> a.count + b.count,
                      min |-> IF WSLess(b.min, a.min) THEN b.min ELSE a.min,
                      max |-> IF WSLess(a.max, b.max) THEN b.max ELSE a.max,
                      sum |-> WAdd(a.sum, b.sum)]
\* Extremes are those of nothing until a pair is found.
BadAggAdd(a, v) == [count |-> a.count + 1, sum |-> WAdd(a.sum, v),
                    min |-> IF WSLess(v, a.min) THEN v ELSE a.min, max |-> IF WSLess(a.max, v) THEN v ELSE a.max]
BadZeroAgg == [count |-> 0, min |-> WMaxS, max |-> WMinS, sum |-> W0]
=============================================================================
