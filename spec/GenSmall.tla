------------------------------ MODULE GenSmall ------------------------------
(***************************************************************************)
(* All small files: every sequence of blocks within the bounds, with ids   *)
(* written as indices into palettes of words, and all filters over the     *)
(* palette.  The harness makes each of them on the real library; every     *)
(* answer is checked against the specification (TraceVibeCol.tla).         *)
(***************************************************************************)
EXTENDS Words, FiniteSets, Json, IOUtils, TLC

Deep == IOEnv.SMALL_DEEP = "1"

Seqs(S, lo, hi) == UNION { [1..k -> S] : k \in lo..hi }
\* One block of up to four pairs, two blocks of up to two (or three and one), three of one; deeper bounds on request.
One   == { <<b>> : b \in Seqs(1..4, 1, IF Deep THEN 5 ELSE 4) }
Two   == { <<a, b>> : a \in Seqs(1..IF Deep THEN 4 ELSE 3, 1, 2), b \in Seqs(1..IF Deep THEN 4 ELSE 3, 1, 2) }
         \cup { <<a, b>> : a \in Seqs(1..3, 3, 3), b \in Seqs(1..3, 1, IF Deep THEN 2 ELSE 1) }
         \cup { <<a, b>> : a \in Seqs(1..3, 1, 1), b \in Seqs(1..3, 3, 3) }
Three == { <<a, b, c>> : a \in Seqs(1..4, 1, 1), b \in Seqs(1..4, 1, 1), c \in Seqs(1..4, 1, 1) }
Four  == IF Deep THEN { <<a, b, c, d>> : a \in Seqs(1..3, 1, 1), b \in Seqs(1..3, 1, 2), c \in Seqs(1..2, 1, 1), d \in Seqs(1..3, 1, 1) } ELSE {}

From(w, n) == [i \in 1..n |-> WAdd(w, WFromInt(i-1))]
Back(w, n) == [i \in 1..n |-> WSub(w, WFromInt(n-i))]
\* Ascending; files use the 2nd to the 5th word, filters all six.
IdPalettes == << From(W0, 6), From(WFromInt(65533), 6), From(<<0, 2047, LB-3>>, 6), From(<<TH-1, LB-1, LB-3>>, 6),
                 Back(WMaxU, 6), <<W0, WFromInt(5), WFromInt(7), WFromInt(8), WFromInt(9), WFromInt(70000)>>,
                 <<WFromInt(126), WFromInt(127), WFromInt(130), WFromInt(16384), <<0, 1, 0>>, <<0, 1, 1>> >>,
                 <<W1, WFromInt(65536), <<0, 2048, 0>>, <<64, 0, 0>>, <<TH, 0, 0>>, WMaxU>> >>
N(n) == WNeg(WFromInt(n))
ValPalettes == << <<W0, W1, N(1), WFromInt(2)>>, <<WFromInt(5), WFromInt(9), WFromInt(100)>>, <<N(5), N(9), N(100)>>,
                  <<WMinS, WMaxS, N(1), W1, W0>>, <<WMinS>>, <<WFromInt(63), WFromInt(64), N(64), N(65)>>, <<WMaxS, WMaxS, W1>>,
                  <<WFromInt(1000), N(999), <<4, 0, 0>>, N(1)>> >>
Filters == SetToSeq(SUBSET (1..6))
Files == SetToSeq(One) \o SetToSeq(Two) \o SetToSeq(Three) \o SetToSeq(Four)

ASSUME JsonSerialize(IOEnv.SMALL_OUT, [files |-> Files, ids |-> IdPalettes, vals |-> ValPalettes, filters |-> Filters])
ASSUME PrintT(<<"FILES", Len(Files)>>)
VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
