------------------------------ MODULE ColFile ------------------------------
(***************************************************************************)
(* What a column file is, seen through the API: a sequence of blocks of    *)
(* (id, value) pairs, how blocks are sized and packed, which statistics    *)
(* are stored for them, and what reading, filtering and aggregating mean.  *)
(* All operators here are functions of explicit arguments; the actions     *)
(* that use them are in VibeCol.tla.                                       *)
(***************************************************************************)
EXTENDS Codec, FiniteSets, TLC

CONSTANTS HeaderSize,            \* file header, where the first block starts
          BlockFixed,            \* block header and section table
          PageSize               \* blocks end at a multiple of this


(***************************************************************************)
(* Columns: sequences of words.  (Runs.tla has the same for compressed     *)
(* columns; whatever the actions do with a column they do by these.)       *)
(***************************************************************************)
CLen(c)       == Len(c)
CTake(c, n)   == SubSeq(c, 1, n)
SameCol(a, b) == a = b

Pad(pos) == (PageSize - (pos % PageSize)) % PageSize

(***************************************************************************)
(* Sizes and packing.                                                      *)
(***************************************************************************)
PaddedSize(raw, pos)          == raw + Pad(pos + raw)
RawSize(e, ids, vals)         == BlockFixed + IdSectionSize(e, ids) + ValSectionSize(e, vals)
BlockSize(e, ids, vals, pos)  == PaddedSize(RawSize(e, ids, vals), pos)

\* How many of the pairs a block write stores: all of them if they fit the target (or there is
\* just one), otherwise the longest proper prefix that fits, but at least one.
FitN(e, ids, vals, pos, target) ==
  LET n == Len(ids)
      step(a, i) == LET raw == a.raw + PairLen(e, ids, vals, i)
                    IN  [raw |-> raw, best |-> IF PaddedSize(raw, pos) <= target THEN i ELSE a.best]
      f == FoldLeft(step, [raw |-> BlockFixed, best |-> 0], [i \in 1..n |-> i])
  IN  IF n = 1 \/ f.best = n THEN n ELSE IF f.best = 0 THEN 1 ELSE f.best

(***************************************************************************)
(* Statistics of a block, and how they are stored.                         *)
(***************************************************************************)
Stats(b) == [minid |-> WMinU(b.ids), maxid |-> WMaxUOf(b.ids),
             min |-> WMinSOf(b.vals), max |-> WMaxSOf(b.vals),
             sum |-> WSum(b.vals), count |-> Len(b.ids)]
Stored(s)  == [s EXCEPT !.min = SignMag(@), !.max = SignMag(@), !.sum = SignMag(@)]
Loaded(s)  == [s EXCEPT !.min = UnSignMag(@), !.max = UnSignMag(@), !.sum = UnSignMag(@)]

(***************************************************************************)
(* Aggregates.  An aggregate of nothing is all zeros.                      *)
(***************************************************************************)
ZeroAgg  == [count |-> 0, min |-> W0, max |-> W0, sum |-> W0]
AggAdd(a, v) == IF a.count = 0 THEN [count |-> 1, min |-> v, max |-> v, sum |-> v]
                ELSE [count |-> a.count + 1,
                      min |-> IF WSLess(v, a.min) THEN v ELSE a.min,
                      max |-> IF WSLess(a.max, v) THEN v ELSE a.max,
                      sum |-> WAdd(a.sum, v)]
AggMerge(a, b) == IF a.count = 0 THEN b ELSE IF b.count = 0 THEN a
                  ELSE [count |-> a.count + b.count,
                        min |-> IF WSLess(b.min, a.min) THEN b.min ELSE a.min,
                        max |-> IF WSLess(a.max, b.max) THEN b.max ELSE a.max,
                        sum |-> WAdd(a.sum, b.sum)]

\* The aggregate of the pairs of a sequence of blocks whose id satisfies Sel.
AggBlock(acc, b, Sel(_)) ==
  FoldLeft(LAMBDA a, i : IF Sel(b.ids[i]) THEN AggAdd(a, b.vals[i]) ELSE a, acc, [i \in 1..Len(b.ids) |-> i])
AggBlocks(blocks, Sel(_)) == FoldLeft(LAMBDA a, b : AggBlock(a, b, Sel), ZeroAgg, blocks)
AggAll(blocks) == LET all(id) == TRUE IN AggBlocks(blocks, all)

\* The aggregate computed from the stored statistics only.
AggStored(blocks) ==
  FoldLeft(LAMBDA a, b : LET s == Loaded(Stored(Stats(b)))
                         IN  AggMerge(a, [count |-> s.count, min |-> s.min, max |-> s.max, sum |-> s.sum]),
           ZeroAgg, blocks)

(***************************************************************************)
(* Filters.  A filter is absent, or a set of ids given as single ids and   *)
(* closed intervals.                                                       *)
(***************************************************************************)
NoFilter == [has |-> FALSE, ids |-> {}, ivs |-> {}]
FilterOf(S) == [has |-> TRUE, ids |-> S, ivs |-> {}]
In(f, id) == id \in f.ids \/ \E iv \in f.ivs : WULeq(iv[1], id) /\ WULeq(id, iv[2])
Selected(allow, deny, id) == (allow.has => In(allow, id)) /\ ~(deny.has /\ In(deny, id))
AggFiltered(blocks, allow, deny) == LET sel(id) == Selected(allow, deny, id) IN AggBlocks(blocks, sel)

\* Blocks that a filter cannot rule out (indices from 0), as a set that every correct candidate
\* list must include, and the list this implementation produces by comparing id ranges.
MustVisit(blocks, allow, deny) ==
  { k - 1 : k \in { k \in 1..Len(blocks) : \E i \in 1..Len(blocks[k].ids) : Selected(allow, deny, blocks[k].ids[i]) } }
CandidatesOK(blocks, allow, deny, list) ==
  /\ \A i \in 1..Len(list) : list[i] \in 0..Len(blocks)-1 /\ (i > 1 => list[i-1] < list[i])
  /\ MustVisit(blocks, allow, deny) \subseteq Range(list)
PruneByRange(blocks, allow) ==
  IF ~allow.has THEN [k \in 1..Len(blocks) |-> k - 1]
  ELSE LET lo == IF allow.ids = {} THEN W0 ELSE CHOOSE x \in allow.ids : \A y \in allow.ids : WULeq(x, y)
           hi == IF allow.ids = {} THEN W0 ELSE CHOOSE x \in allow.ids : \A y \in allow.ids : WULeq(y, x)
       IN  SelectSeq([k \in 1..Len(blocks) |-> k - 1],
                     LAMBDA k : LET s == Stats(blocks[k+1]) IN ~(WULess(s.maxid, lo) \/ WULess(hi, s.minid)))

(***************************************************************************)
(* Partition of n candidate blocks among w workers (chunks of equal size,  *)
(* the last ones possibly empty); worker k in 0..w-1 gets lo+1..hi.        *)
(***************************************************************************)
Min2(a, b) == IF a < b THEN a ELSE b
Chunk(n, w, k) == LET c == (n + w - 1) \div w IN [lo |-> Min2(k * c, n), hi |-> Min2((k + 1) * c, n)]

(***************************************************************************)
(* Id sets and collections of files (oldest first): the newest file that   *)
(* holds an id decides it.                                                 *)
(***************************************************************************)
IdSet(blocks) == UNION { Range(blocks[k].ids) : k \in DOMAIN blocks }
AggMulti(contents, allow) ==
  LET n == Len(contents)
      ids == [j \in 1..n |-> IdSet(contents[j])]
      sel(i, id) == (allow.has => In(allow, id)) /\ \A j \in i+1..n : id \notin ids[j]
  IN  FoldLeft(LAMBDA a, i : LET s(id) == sel(i, id) IN AggMerge(a, AggBlocks(contents[i], s)),
               ZeroAgg, [i \in 1..n |-> i])
\* ... as computed: newest to oldest with a growing deny set.
AggMultiPass(contents, allow) ==
  LET n == Len(contents)
      step(a, i) == LET c == contents[n + 1 - i]
                        r == AggFiltered(c, allow, FilterOf(a.deny))
                    IN  [deny |-> a.deny \cup IdSet(c), agg |-> AggMerge(a.agg, r)]
  IN  FoldLeft(step, [deny |-> {}, agg |-> ZeroAgg], [i \in 1..n |-> i]).agg

(***************************************************************************)
(* Batches of the simple writer.                                           *)
(***************************************************************************)
SortedById(ids) == \A i \in 2..Len(ids) : ~WULess(ids[i], ids[i-1])
PairLess(p, q)  == WULess(p[1], q[1]) \/ (p[1] = q[1] /\ WULess(p[2], q[2]))
PairsOf(ids, vals) == [i \in 1..Len(ids) |-> <<ids[i], vals[i]>>]
SameBag(p, q)   == Len(p) = Len(q) /\ SortSeq(p, PairLess) = SortSeq(q, PairLess)
\* One outcome of sorting a batch by id (the order among equal ids is not determined).
SortBatch(b)    == SortSeq(PairsOf(b.ids, b.vals), PairLess)
\* The stored pairs are the batches in order, each sorted by id, each complete.
RECURSIVE MatchBatches(_, _, _, _)
MatchBatches(ids, vals, batches, k) ==
  IF k > Len(batches) THEN ids = <<>>
  ELSE LET n == Len(batches[k].ids)
           m == Len(ids)
       IN  /\ n <= m
           /\ LET ci == SubSeq(ids, 1, n)
                  cv == SubSeq(vals, 1, n)
              IN  SortedById(ci) /\ SameBag(PairsOf(ci, cv), PairsOf(batches[k].ids, batches[k].vals))
           /\ MatchBatches(SubSeq(ids, n+1, m), SubSeq(vals, n+1, m), batches, k+1)
ConcatIds(blocks)  == FoldLeft(LAMBDA a, b : a \o b.ids, <<>>, blocks)
ConcatVals(blocks) == FoldLeft(LAMBDA a, b : a \o b.vals, <<>>, blocks)
=============================================================================
