------------------------------ MODULE MCCodec ------------------------------
(***************************************************************************)
(* The arithmetic and codings of Words.tla and Codec.tla, exhaustively for *)
(* 10-bit words (G = 1): all pairs of words (Sample = TRUE: the first word *)
(* is one at which something changes).                                     *)
(***************************************************************************)
EXTENDS Codec

CONSTANT Sample

VARIABLES a, b

N == TB * LB * LB
ToU(w) == (w[1] * LB + w[2]) * LB + w[3]
ToS(w) == IF ToU(w) >= N \div 2 THEN ToU(w) - N ELSE ToU(w)
OfU(n) == LET m == ((n % N) + N) % N IN <<m \div (LB * LB), (m \div LB) % LB, m % LB>>
Edges == { OfU(n) : n \in { 2^j + d : j \in 0..9, d \in {-1, 0, 1} } \cup { -(2^j) + d : j \in 0..9, d \in {-1, 0, 1} } }

\* b is chosen in a step so that TLC's workers share the work.
None == <<-1, 0, 0>>
Init == a \in (IF Sample THEN Edges ELSE Word) /\ b = None
Next == b = None /\ b' \in Word /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, b>>

\* Word arithmetic is arithmetic modulo 2^10.
Arithmetic == b # None =>
              /\ OfU(ToU(a)) = a
              /\ ToU(WAdd(a, b)) = (ToU(a) + ToU(b)) % N
              /\ ToU(WSub(a, b)) = (ToU(a) - ToU(b) + N) % N
              /\ ToU(WNeg(a)) = (N - ToU(a)) % N
              /\ ToU(WShl(a)) = (2 * ToU(a)) % N
              /\ ToU(WShr(a)) = ToU(a) \div 2
Order == b # None =>
         /\ WULess(a, b) = (ToU(a) < ToU(b))
         /\ WSLess(a, b) = (ToS(a) < ToS(b))
         /\ WULeq(a, b) = (ToU(a) <= ToU(b))
\* Codings lose nothing, and are as long as they should be.
RoundTrips == b # None =>
  /\ UnZigZag(ZigZag(a)) = a
  /\ ToU(ZigZag(a)) = (IF ToS(a) < 0 THEN -2 * ToS(a) - 1 ELSE 2 * ToS(a))
  /\ UnSignMag(SignMag(a)) = a
  /\ a # b => ZigZag(a) # ZigZag(b) /\ SignMag(a) # SignMag(b) /\ VarBytes(a) # VarBytes(b)
  /\ Len(VarBytes(a)) = VarLen(a) /\ VarLen(a) <= 10
  /\ VarDecodeAt(VarBytes(a) \o VarBytes(b), 1) = [w |-> a, next |-> VarLen(a) + 1]
  /\ Undelta(Delta(<<a, b>>)) = <<a, b>> /\ Undelta(Delta(<<a, b, a>>)) = <<a, b, a>>
\* Variable-length sections of every encoding; their sizes add up from the pairs.
Sections == b # None => \A e \in Encodings :
  LET s == <<a, b, b>>
  IN  /\ IdVar(e) => DecodeIds(e, EncodeIds(e, s), 3) = s /\ Len(EncodeIds(e, s)) = IdSectionSize(e, s)
      /\ ValVar(e) => DecodeVals(e, EncodeVals(e, s), 3) = s /\ Len(EncodeVals(e, s)) = ValSectionSize(e, s)
      /\ IdSectionSize(e, s) + ValSectionSize(e, s) = PairLen(e, s, s, 1) + PairLen(e, s, s, 2) + PairLen(e, s, s, 3)
=============================================================================
