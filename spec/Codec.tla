------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The eight encodings of a block's id and value sections                  *)
(* (column_format_spec.md, 4.2):                                           *)
(*   0 raw; 1 delta ids; 2 delta values; 3 delta both;                     *)
(*   4 varint both; 5 delta+varint ids; 6 delta+varint values; 7 both.     *)
(* Sections not named by the encoding hold fixed-width words.              *)
(***************************************************************************)
EXTENDS Words

Encodings    == 0..7
IdDelta(e)   == e \in {1, 3, 5, 7}
ValDelta(e)  == e \in {2, 3, 6, 7}
IdVar(e)     == e \in {4, 5, 7}
ValVar(e)    == e \in {4, 6, 7}
FixedWidth   == 8

Delta(s)     == [i \in 1..Len(s) |-> IF i = 1 THEN s[1] ELSE WSub(s[i], s[i-1])]
Undelta(s)   == FoldLeft(LAMBDA a, x : Append(a, IF a = <<>> THEN x ELSE WAdd(a[Len(a)], x)), <<>>, s)

\* The words that are stored in the sections.
IdWords(e, ids)   == IF IdDelta(e) THEN Delta(ids) ELSE ids
ValWords(e, vals) == IF ValDelta(e) THEN Delta(vals) ELSE vals

\* Bytes taken by the i-th pair in both sections together.
IdLen(e, w)  == IF IdVar(e) THEN VarLen(w) ELSE FixedWidth
ValLen(e, w) == IF ValVar(e) THEN VarLen(ZigZag(w)) ELSE FixedWidth
PairLen(e, ids, vals, i) ==
  LET d(f, s) == IF f /\ i > 1 THEN WSub(s[i], s[i-1]) ELSE s[i]
  IN  IdLen(e, d(IdDelta(e), ids)) + ValLen(e, d(ValDelta(e), vals))
IdSectionSize(e, ids) ==
  IF IdVar(e) THEN FoldLeft(LAMBDA a, x : a + VarLen(x), 0, IdWords(e, ids)) ELSE FixedWidth * Len(ids)
ValSectionSize(e, vals) ==
  IF ValVar(e) THEN FoldLeft(LAMBDA a, x : a + VarLen(ZigZag(x)), 0, ValWords(e, vals)) ELSE FixedWidth * Len(vals)

\* The bytes of the sections (fixed width only for G = 7).
ConcatMap(f(_), s) == FoldLeft(LAMBDA a, x : a \o f(x), <<>>, s)
ZVarBytes(v) == VarBytes(ZigZag(v))
EncodeIds(e, ids)   == IF IdVar(e) THEN ConcatMap(VarBytes, IdWords(e, ids)) ELSE ConcatMap(LE8, IdWords(e, ids))
EncodeVals(e, vals) == IF ValVar(e) THEN ConcatMap(ZVarBytes, ValWords(e, vals)) ELSE ConcatMap(LE8, ValWords(e, vals))

\* Decoding: n words from the bytes of a section.
RECURSIVE VarDecodeN(_, _, _)
VarDecodeN(bs, p, n) == IF n = 0 THEN <<>>
                        ELSE LET d == VarDecodeAt(bs, p) IN <<d.w>> \o VarDecodeN(bs, d.next, n-1)
DecodeFixed(bs, n) == [i \in 1..n |-> FromLE8(SubSeq(bs, 8*i-7, 8*i))]
DecodeIds(e, bs, n)  == LET w == IF IdVar(e) THEN VarDecodeN(bs, 1, n) ELSE DecodeFixed(bs, n)
                        IN  IF IdDelta(e) THEN Undelta(w) ELSE w
DecodeVals(e, bs, n) == LET v == VarDecodeN(bs, 1, n)
                            w == IF ValVar(e) THEN [i \in 1..n |-> UnZigZag(v[i])] ELSE DecodeFixed(bs, n)
                        IN  IF ValDelta(e) THEN Undelta(w) ELSE w
=============================================================================
