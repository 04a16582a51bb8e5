-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* The operators of ColFile.tla on compressed columns, for blocks and      *)
(* batches of hundreds of thousands of pairs.                              *)
(*                                                                         *)
(* A compressed column is a sequence of arithmetic progressions            *)
(*   <<s, d, n>>:  s, s+d, ..., s+(n-1)d   (n >= 1; d is zero if n is 1),  *)
(* each of which moves in one direction (ids as unsigned words, values as  *)
(* signed ones).  The id column and the value column of a block or batch   *)
(* are cut at the same places, and as late as possible from left to right, *)
(* so that equal pairs have equal compressed columns, also for prefixes.   *)
(* A set of ids is the sequence of its maximal intervals <<lo, hi>>.       *)
(*                                                                         *)
(* Every operator named R... is the operator of the same name of ColFile,  *)
(* Codec or VibeCol on expanded columns; MCRuns.tla checks that            *)
(* exhaustively for short words.                                           *)
(***************************************************************************)
EXTENDS VibeCol

(* ----------------------------- progressions ----------------------------- *)
RECURSIVE WMulInt(_, _)
WMulInt(w, n) == IF n = 0 THEN W0
                 ELSE LET h == WShl(WMulInt(w, n \div 2)) IN IF n % 2 = 0 THEN h ELSE WAdd(h, w)
At0(s, i)     == IF i = 0 THEN s[1] ELSE WAdd(s[1], WMulInt(s[2], i))       \* element i, from 0
LastOf(s)     == At0(s, s[3] - 1)
Cut(s, i, n)  == <<At0(s, i), IF n = 1 THEN W0 ELSE s[2], n>>           \* n elements from number i on
FirstOf(s)    == s[1]

RLen(c)     == FoldLeft(LAMBDA a, s : a + s[3], 0, c)
RTake(c, n) == FoldLeft(LAMBDA a, s : IF a.left = 0 THEN a
                                      ELSE LET k == Min2(a.left, s[3])
                                           IN  [left |-> a.left - k, out |-> Append(a.out, Cut(s, 0, k))],
                        [left |-> n, out |-> <<>>], c).out

\* A form that depends on the elements only (not on their directions or on another column).
Join(a, s) ==
  IF a = <<>> THEN <<s>>
  ELSE LET k == Len(a)
           p == a[k]
           d == IF p[3] = 1 THEN WSub(s[1], p[1]) ELSE p[2]
           ext(n) == Append(SubSeq(a, 1, k-1), <<p[1], d, p[3] + n>>)
       IN  IF s[1] # WAdd(LastOf(p), d) THEN Append(a, s)
           ELSE IF s[3] = 1 \/ s[2] = d THEN ext(s[3])
           ELSE Append(ext(1), Cut(s, 1, s[3] - 1))
Canon(c) == FoldLeft(Join, <<>>, c)
RSameCol(a, b) == Canon(a) = Canon(b)

(* --------------------------- sizes and packing --------------------------- *)
\* Bytes of the varints of the elements of s; their length L(w) is monotone between two of them unless
\* Cross(one, other).
SpanLen(s, L(_), Cross(_, _)) ==
  LET RECURSIVE len(_, _)
      len(i, n) == LET a == At0(s, i)
                       z == At0(s, i + n - 1)
                       h == n \div 2
                   IN  IF n = 1 THEN L(a)
                       ELSE IF n = 2 THEN L(a) + L(z)
                       ELSE IF L(a) = L(z) /\ ~Cross(a, z) THEN n * L(a)
                       ELSE len(i, h) + len(i + h, n - h)
  IN  len(0, s[3])
ZLen(w) == VarLen(ZigZag(w))
\* The differences of a column: within a progression they are its step.
DeltaLen(c, L(_)) ==
  FoldLeft(LAMBDA a, s : [n |-> a.n + L(IF a.first THEN s[1] ELSE WSub(s[1], a.prev)) + (s[3] - 1) * L(s[2]),
                          prev |-> LastOf(s), first |-> FALSE],
           [n |-> 0, prev |-> W0, first |-> TRUE], c).n
RIdSectionSize(e, c) ==
  IF ~IdVar(e) THEN FixedWidth * RLen(c)
  ELSE IF IdDelta(e) THEN DeltaLen(c, VarLen)
  ELSE LET never(a, z) == FALSE IN FoldLeft(LAMBDA a, s : a + SpanLen(s, VarLen, never), 0, c)
RValSectionSize(e, c) ==
  IF ~ValVar(e) THEN FixedWidth * RLen(c)
  ELSE IF ValDelta(e) THEN DeltaLen(c, ZLen)
  ELSE LET signs(a, z) == WIsNeg(a) # WIsNeg(z)
       IN  FoldLeft(LAMBDA a, s : a + SpanLen(s, ZLen, signs), 0, c)

\* The last n in lo..hi with P, which holds up to some point (at least at lo).
LastTrue(from, to, P(_)) ==
  LET RECURSIVE last(_, _)
      last(lo, hi) == IF lo >= hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2 IN IF P(m) THEN last(m, hi) ELSE last(lo, m - 1)
  IN  last(from, to)
RFitN(e, ids, vals, pos, target) ==
  LET n == RLen(ids)
      fits(k) == k = 0 \/ PaddedSize(BlockFixed + RIdSectionSize(e, RTake(ids, k)) + RValSectionSize(e, RTake(vals, k)), pos) <= target
      best == LastTrue(0, n, fits)
  IN  IF best = 0 THEN 1 ELSE best

(* ------------------------------- id sets -------------------------------- *)
\* Indices [from, to) of the elements of an id progression within an interval.
SpanIn(s, lo, hi) ==
  LET n == s[3]
      up == WULeq(s[1], LastOf(s))
      before(x) == IF up THEN WULess(x, lo) ELSE WULess(hi, x)
      notpast(x) == IF up THEN WULeq(x, hi) ELSE WULeq(lo, x)
      b(k) == k = 0 \/ before(At0(s, k - 1))
      p(k) == k = 0 \/ notpast(At0(s, k - 1))
      mn == IF up THEN s[1] ELSE LastOf(s)
      mx == IF up THEN LastOf(s) ELSE s[1]
  IN  IF WULess(mx, lo) \/ WULess(hi, mn) THEN <<0, 0>>
      ELSE IF WULeq(lo, mn) /\ WULeq(mx, hi) THEN <<0, n>>
      ELSE <<LastTrue(0, n, b), LastTrue(0, n, p)>>

\* Sequences of intervals: in order, disjoint and not adjacent.
Intervals(s) ==
  IF s[3] = 1 \/ s[2] = W0 THEN <<<<s[1], s[1]>>>>
  ELSE IF s[2] = W1 /\ WULess(s[1], LastOf(s)) THEN <<<<s[1], LastOf(s)>>>>
  ELSE IF s[2] = WNot(W0) /\ WULess(LastOf(s), s[1]) THEN <<<<LastOf(s), s[1]>>>>
  ELSE [i \in 1..s[3] |-> <<At0(s, i - 1), At0(s, i - 1)>>]
Maximal(ivs) ==
  LET sorted == SortSeq(ivs, LAMBDA a, b : WULess(a[1], b[1]))
      add(a, v) == IF a = <<>> THEN <<v>>
                   ELSE LET k == Len(a)
                            q == a[k]
                        IN  IF q[2] = WMaxU \/ WULeq(v[1], WAdd(q[2], W1))
                            THEN IF WULess(q[2], v[2]) THEN [a EXCEPT ![k] = <<q[1], v[2]>>] ELSE a
                            ELSE Append(a, v)
  IN  FoldLeft(add, <<>>, sorted)
RIdSet(blocks) == Maximal(FoldLeft(LAMBDA a, b : FoldLeft(LAMBDA x, s : x \o Intervals(s), a, b.ids), <<>>, blocks))
Gaps(ivs) ==
  LET n == Len(ivs)
  IN  IF n = 0 THEN <<<<W0, WMaxU>>>>
      ELSE (IF ivs[1][1] = W0 THEN <<>> ELSE <<<<W0, WSub(ivs[1][1], W1)>>>>)
           \o [i \in 1..n-1 |-> <<WAdd(ivs[i][2], W1), WSub(ivs[i+1][1], W1)>>]
           \o (IF ivs[n][2] = WMaxU THEN <<>> ELSE <<<<WAdd(ivs[n][2], W1), WMaxU>>>>)
Intersect(a, b) ==
  LET mx(x, y) == IF WULess(x, y) THEN y ELSE x
      mn(x, y) == IF WULess(x, y) THEN x ELSE y
      one(v) == LET hit == SelectSeq(b, LAMBDA w : WULeq(w[1], v[2]) /\ WULeq(v[1], w[2]))
                IN  [i \in 1..Len(hit) |-> <<mx(v[1], hit[i][1]), mn(v[2], hit[i][2])>>]
  IN  FoldLeft(LAMBDA x, v : x \o one(v), <<>>, a)
Chosen(allow, deny) == LET a == IF allow.has THEN allow.ivs ELSE <<<<W0, WMaxU>>>>
                       IN  IF deny.has THEN Intersect(a, Gaps(deny.ivs)) ELSE a

(* ------------------------------ aggregates ------------------------------- *)
\* The sum 0 + 1 + ... + (n-1), times d.
TriMul(d, n) == IF n % 2 = 0 THEN WMulInt(WMulInt(d, n \div 2), n - 1) ELSE WMulInt(WMulInt(d, n), (n - 1) \div 2)
SpanAgg(s, i, n) ==
  LET a == At0(s, i)
      z == At0(s, i + n - 1)
  IN  [count |-> n, min |-> IF WSLess(a, z) THEN a ELSE z, max |-> IF WSLess(a, z) THEN z ELSE a,
       sum |-> WAdd(WMulInt(a, n), TriMul(s[2], n))]
AggIn(blocks, ivs) ==
  LET seg(a, s, v) == FoldLeft(LAMBDA x, iv : LET r == SpanIn(s, iv[1], iv[2])
                                              IN  IF r[1] = r[2] THEN x ELSE AggMerge(x, SpanAgg(v, r[1], r[2] - r[1])),
                               a, ivs)
  IN  FoldLeft(LAMBDA a, b : FoldLeft(LAMBDA x, k : seg(x, b.ids[k], b.vals[k]), a, [k \in 1..Len(b.ids) |-> k]),
               ZeroAgg, blocks)
RAggFiltered(blocks, allow, deny) == AggIn(blocks, Chosen(allow, deny))
RAggAll(blocks) == AggIn(blocks, <<<<W0, WMaxU>>>>)
RAggMulti(contents, allow) ==
  LET n == Len(contents)
      newer(i) == FoldLeft(LAMBDA a, j : Maximal(a \o RIdSet(contents[j])), <<>>, [j \in 1..n-i |-> i + j])
  IN  FoldLeft(LAMBDA a, i : AggMerge(a, AggIn(contents[i], Chosen(allow, [has |-> TRUE, ivs |-> newer(i)]))),
               ZeroAgg, [i \in 1..n |-> i])
RMustVisit(blocks, allow, deny) ==
  LET ivs == Chosen(allow, deny)
      hit(b) == \E k \in 1..Len(b.ids) : \E j \in 1..Len(ivs) : LET r == SpanIn(b.ids[k], ivs[j][1], ivs[j][2]) IN r[1] # r[2]
  IN  { k - 1 : k \in { k \in 1..Len(blocks) : hit(blocks[k]) } }

(* -------------------------------- batches -------------------------------- *)
\* The columns of a large batch are recorded sorted by id (equal ids have equal values), in whatever
\* order it was written: only its bag of pairs matters.
RMatchBatches(ids, vals, batches, k) ==
  LET bi == FoldLeft(LAMBDA a, j : a \o batches[j].ids, <<>>, [j \in 1..Len(batches)-k+1 |-> k + j - 1])
      bv == FoldLeft(LAMBDA a, j : a \o batches[j].vals, <<>>, [j \in 1..Len(batches)-k+1 |-> k + j - 1])
  IN  RSameCol(ids, bi) /\ RSameCol(vals, bv)
RBitmapIs(ids, S) == ids = S
RFilt(f) == IF f.has THEN [has |-> TRUE, ivs |-> f.ivs] ELSE [has |-> FALSE, ivs |-> <<>>]
=============================================================================
