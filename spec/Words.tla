------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Machine words of 9*G+1 bits, as used for ids (unsigned) and values      *)
(* (two's complement).  With G = 7 these are the 64-bit words of the file  *)
(* format; the exhaustive configurations use G = 1, i.e. 10-bit words that *)
(* have the same structure (ten varint groups, the last one a single bit). *)
(*                                                                         *)
(* A word is a triple <<t, m, l>> of limbs: l and m hold three varint      *)
(* groups each, t holds three groups and the top bit.  TLC's integers are  *)
(* 32 bits wide, so a 64-bit word does not fit into one of them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANT G                       \* bits per varint group

GB == 2^G                        \* one varint group
LB == 2^(3*G)                    \* base of the limbs l and m
TB == 2^(3*G+1)                  \* base of the limb t
TH == 2^(3*G)                    \* sign bit within t

Word  == (0..TB-1) \X (0..LB-1) \X (0..LB-1)
W0    == <<0, 0, 0>>
W1    == <<0, 0, 1>>
WMaxU == <<TB-1, LB-1, LB-1>>    \* largest unsigned word
WMinS == <<TH, 0, 0>>            \* smallest signed word
WMaxS == <<TH-1, LB-1, LB-1>>    \* largest signed word

WAdd(a, b) == LET l == a[3] + b[3]
                  m == a[2] + b[2] + (l \div LB)
                  t == a[1] + b[1] + (m \div LB)
              IN  <<t % TB, m % LB, l % LB>>
WNot(a)    == <<TB-1-a[1], LB-1-a[2], LB-1-a[3]>>
WNeg(a)    == WAdd(WNot(a), W1)
WSub(a, b) == WAdd(a, WNeg(b))
WIsNeg(a)  == a[1] >= TH

WULess(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3]))
WULeq(a, b)  == a = b \/ WULess(a, b)
WFlip(a)     == <<(a[1] + TH) % TB, a[2], a[3]>>
WSLess(a, b) == WULess(WFlip(a), WFlip(b))

WShl(a) == LET l == 2*a[3]
               m == 2*a[2] + (l \div LB)
               t == 2*a[1] + (m \div LB)
           IN  <<t % TB, m % LB, l % LB>>
WShr(a) == <<a[1] \div 2,
             (a[2] + (a[1] % 2) * LB) \div 2,
             (a[3] + (a[2] % 2) * LB) \div 2>>

WFromInt(n) == <<0, n \div LB, n % LB>>                         \* 0 <= n < 2^31, for G = 7
WSmall(n)   == <<0, n \div LB, n % LB>>                         \* 0 <= n < LB*LB

(***************************************************************************)
(* ZigZag: (v << 1) xor (v >> 63), and its inverse.                        *)
(***************************************************************************)
ZigZag(v)   == IF WIsNeg(v) THEN WNot(WShl(v)) ELSE WShl(v)
UnZigZag(u) == IF u[3] % 2 = 1 THEN WNot(WShr(u)) ELSE WShr(u)

(***************************************************************************)
(* Variable-length coding: groups of G bits, least significant first, each *)
(* but the last with the continuation bit GB.                              *)
(***************************************************************************)
Groups(u) == LET g(x) == <<x % GB, (x \div GB) % GB, (x \div (GB*GB)) % GB>>
             IN  g(u[3]) \o g(u[2]) \o g(u[1]) \o <<u[1] \div TH>>
VarLen(u) ==
  IF u[1] > 0
  THEN IF u[1] >= TH THEN 10 ELSE IF u[1] >= GB*GB THEN 9 ELSE IF u[1] >= GB THEN 8 ELSE 7
  ELSE IF u[2] > 0
  THEN IF u[2] >= GB*GB THEN 6 ELSE IF u[2] >= GB THEN 5 ELSE 4
  ELSE IF u[3] >= GB*GB THEN 3 ELSE IF u[3] >= GB THEN 2 ELSE 1
VarBytes(u) == LET n == VarLen(u)
                   g == Groups(u)
               IN  [i \in 1..n |-> IF i < n THEN g[i] + GB ELSE g[i]]

\* Assemble a word from (at most ten) groups.
FromGroups(gs) ==
  LET g(i) == IF i <= Len(gs) THEN gs[i] ELSE 0
  IN  << g(7) + GB*g(8) + GB*GB*g(9) + TH*g(10),
         g(4) + GB*g(5) + GB*GB*g(6),
         g(1) + GB*g(2) + GB*GB*g(3) >>
\* Length of the varint starting at position p of bs.
RECURSIVE VarEnd(_, _)
VarEnd(bs, p) == IF bs[p] < GB THEN p ELSE VarEnd(bs, p+1)
VarDecodeAt(bs, p) == LET e == VarEnd(bs, p)
                      IN  [w |-> FromGroups([i \in 1..(e-p+1) |-> bs[p+i-1] % GB]), next |-> e+1]

(***************************************************************************)
(* Signed statistics are stored as sign and magnitude; the most negative   *)
(* value, whose magnitude does not fit, is stored as "minus zero".         *)
(***************************************************************************)
SignMag(v)   == IF WIsNeg(v) /\ v # WMinS THEN LET a == WNeg(v) IN <<a[1] + TH, a[2], a[3]>> ELSE v
UnSignMag(u) == IF u[1] >= TH /\ u # WMinS THEN WNeg(<<u[1] - TH, u[2], u[3]>>) ELSE u

(***************************************************************************)
(* Little-endian bytes (only meaningful for G = 7).                        *)
(***************************************************************************)
LE8(w) == << w[3] % 256, (w[3] \div 256) % 256, (w[3] \div 65536) + 32 * (w[2] % 8),
             (w[2] \div 8) % 256, (w[2] \div 2048) % 256, (w[2] \div 524288) + 4 * (w[1] % 64),
             (w[1] \div 64) % 256, w[1] \div 16384 >>
FromLE8(b) == << (b[6] \div 4) + 64 * b[7] + 16384 * b[8],
                 (b[3] \div 32) + 8 * b[4] + 2048 * b[5] + 524288 * (b[6] % 4),
                 b[1] + 256 * b[2] + 65536 * (b[3] % 32) >>
LE4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216 >>  \* 0 <= n < 2^31
\* A 32-bit field as an integer; -1 stands for every value of 2^31 or more.
FromLE4(b) == IF b[4] >= 128 THEN -1 ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

(***************************************************************************)
(* Folds over sequences of words.                                          *)
(***************************************************************************)
WSum(s)  == FoldLeft(LAMBDA a, x : WAdd(a, x), W0, s)
WMinU(s) == FoldLeft(LAMBDA a, x : IF WULess(x, a) THEN x ELSE a, s[1], s)
WMaxUOf(s) == FoldLeft(LAMBDA a, x : IF WULess(a, x) THEN x ELSE a, s[1], s)
WMinSOf(s) == FoldLeft(LAMBDA a, x : IF WSLess(x, a) THEN x ELSE a, s[1], s)
WMaxSOf(s) == FoldLeft(LAMBDA a, x : IF WSLess(a, x) THEN x ELSE a, s[1], s)
=============================================================================
