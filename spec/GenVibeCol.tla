----------------------------- MODULE GenVibeCol -----------------------------
(***************************************************************************)
(* Behaviours of VibeCol.tla chosen at random by TLC's simulator, written  *)
(* down as sequences of calls for the harness to make on the real library; *)
(* what comes back is validated by TraceVibeCol.tla like any other trace.  *)
(* Calls that the API refuses are part of them: they leave the state as it *)
(* is.                                                                     *)
(***************************************************************************)
EXTENDS VibeCol, Json, IOUtils, Randomization

CONSTANT Length                  \* calls per behaviour

VARIABLES hist,                  \* the calls so far
          idp, valp,             \* ids and values in use
          big                    \* large batches so far

gvars == <<vars, hist, idp, valp, big>>

Mix == IOEnv.GEN_MIX
R(S) == {RandomElement(S)}
OneIn(n) == RandomElement(1..n) = 1

(* ------------------------------- data ----------------------------------- *)
From(w, n) == { WAdd(w, WFromInt(i)) : i \in 0..n-1 }
Less(w, n) == { WSub(w, WFromInt(i)) : i \in 1..n }
Pow(b) == IF b < 21 THEN <<0, 0, 2^b>> ELSE IF b < 42 THEN <<0, 2^(b-21), 0>> ELSE <<2^(b-42), 0, 0>>
IdPalettes ==
  { From(W0, 6), From(WFromInt(5), 4) \cup {WFromInt(9)}, From(WFromInt(65533), 6), From(WSub(Pow(32), WFromInt(3)), 5),
    From(WSub(Pow(63), WFromInt(3)), 6), From(WSub(Pow(48), WFromInt(2)), 4), Less(W0, 5), Less(W0, 2) \cup From(W0, 2),
    {W0, WFromInt(127), WFromInt(128), WFromInt(16384), Pow(21), Pow(42)}, {WFromInt(100), WFromInt(200), WFromInt(300), WFromInt(70000)},
    {Pow(b) : b \in {14, 21, 28, 35, 49, 62, 63}}, {WFromInt(1), Pow(16), Pow(17), Pow(33), Pow(63), WMaxU} }
N(n) == WNeg(WFromInt(n))
ValPalettes ==
  { {W0, W1, N(1), WFromInt(2)}, {WFromInt(63), WFromInt(64), N(64), N(65), WFromInt(8191), N(8193)},
    {WMaxS, WMinS, N(1), W1}, {WMinS, WAdd(WMinS, W1), WMaxS, WSub(WMaxS, W1)}, {WFromInt(5), WFromInt(9), WFromInt(100)},
    {N(5), N(9), N(100)}, {Pow(62), WNeg(Pow(62)), Pow(31), WNeg(Pow(31))}, {W0}, {WFromInt(7), Pow(40), Pow(55), N(3)} }

\* A batch of n pairs: any ids, ascending ids, one id.
Pairs(n) ==
  LET any  == TLCEval([i \in 1..n |-> RandomElement(idp)])
      mode == RandomElement(1..5)
      ids  == IF mode <= 2 THEN any
              ELSE IF mode = 3 THEN SortSeq(any, WULess)
              ELSE IF mode = 4 /\ n <= Cardinality(idp) THEN SortSeq(SetToSeq(RandomSubset(n, idp)), WULess)
              ELSE IF n > 20 THEN [i \in 1..n |-> WAdd(any[1], WFromInt(i * 3))] ELSE any
  IN  TLCEval(<<ids, [i \in 1..n |-> RandomElement(valp)]>>)
BigSizes == {120, 250, 251, 253, 330, 505, 998, 999, 1000, 1001, 1300}
SomeFilter == IF OneIn(3) THEN NoFilter
              ELSE IF OneIn(6) THEN [has |-> TRUE, ids |-> {}, ivs |-> R({ <<a, WAdd(a, WFromInt(3))>> : a \in idp \ Less(W0, 5) } \cup {<<W0, W1>>})]
              ELSE FilterOf(RandomElement(SUBSET (idp \cup {WFromInt(6), WFromInt(250)})))
Targets == {0, 80, 4032, 4096, 8192, 12288, 16384}
Paths == {"f1", "f2", "f3", "f4"}

(* ------------------------------ guards ---------------------------------- *)
OpenW  == { x \in DOMAIN wr : wr[x].st = "open" }
OpenS  == { x \in DOMAIN sw : ~sw[x].closed }
OpenR  == { x \in DOMAIN rd : rd[x].open }
Busy   == { wr[x].path : x \in OpenW } \cup { sw[x].w.path : x \in OpenS } \cup { rd[x].path : x \in OpenR }
Read   == { rd[x].path : x \in OpenR }
\* While someone reads a file its writer must not change it.
WW     == { x \in OpenW : wr[x].path \notin Read }
SS     == { x \in OpenS : sw[x].w.path \notin Read }
Fin    == { p \in DOMAIN files : files[p].fin }
MM     == { m \in DOMAIN mr : \A i \in DOMAIN mr[m] : mr[m][i] \in OpenR }
BlockR == { x \in OpenR : Content(x) # <<>> }
New(f) == Cardinality(DOMAIN f) + 1

On(k) ==
  CASE k = "wnew" -> Cardinality(OpenW) < 2 /\ Paths \ Busy # {}
    [] k \in {"wblock", "wfin", "west", "wclose"} -> WW # {}
    [] k = "wbad"  -> DOMAIN wr # {}
    [] k = "snew"  -> Cardinality(OpenS) < 2 /\ Paths \ Busy # {}
    [] k \in {"swrite", "starget", "sclose"} -> SS # {}
    [] k = "sbad"  -> DOMAIN sw # {}
    [] k = "open"  -> Fin # {} /\ Cardinality(OpenR) < 4
    [] k \in {"agg", "iter", "bitmap", "cache", "desc", "dump"} -> OpenR # {}
    [] k = "rclose" -> Cardinality(OpenR) > 1 \/ (OpenR # {} /\ OneIn(3))
    [] k \in {"pairs", "hold"} -> BlockR # {}
    [] k = "mnew" -> OpenR # {}
    [] k = "magg" -> MM # {}
    [] OTHER -> FALSE

Base == <<"wnew", "wblock", "wblock", "wblock", "wfin", "snew", "swrite", "swrite", "sclose", "open", "open", "rclose">>
Kinds ==
  Base \o CASE Mix = "C01" -> <<"wblock", "wblock", "wfin", "dump", "dump", "pairs">>
            [] Mix = "C03" -> <<"snew", "swrite", "swrite", "swrite", "swrite", "sclose", "starget", "sbad", "dump">>
            [] Mix \in {"C04", "C05", "C06", "C16"} -> <<"agg", "agg", "agg", "agg", "agg", "agg", "iter", "iter", "iter", "wblock", "magg", "mnew">>
            [] Mix = "C07" -> <<"mnew", "mnew", "magg", "magg", "magg", "magg", "magg", "cache", "bitmap", "agg", "open", "wblock">>
            [] Mix = "C08" -> <<"bitmap", "bitmap", "bitmap", "bitmap", "cache", "cache", "agg", "wblock", "wblock">>
            [] Mix = "C13" -> <<"wbad", "wbad", "sbad", "sbad", "wbad", "sbad", "west", "pairs", "dump", "dump", "starget">>
            [] Mix = "C20" -> <<"desc", "desc", "desc", "pairs", "wbad", "wblock">>
            [] OTHER -> <<"agg", "agg", "agg", "iter", "bitmap", "bitmap", "cache", "desc", "dump", "pairs", "hold", "mnew", "magg", "magg",
                          "starget", "wbad", "sbad", "west">>

(* ------------------------------- calls ---------------------------------- *)
Call(c) == hist' = Append(hist, c)
Keep == UNCHANGED <<idp, valp>>
Size == IF big < 2 /\ OneIn(14) THEN RandomElement(BigSizes) ELSE RandomElement(1..5)
SmallSize == IF big < 1 /\ OneIn(30) THEN RandomElement(BigSizes) ELSE RandomElement(1..5)
Count(n) == big' = IF n > 20 THEN big + 1 ELSE big

Do(k) ==
  CASE k = "wnew" -> \E p \in R(Paths \ Busy), e \in R(0..7), t \in R(Targets) :
         LET x == New(wr) IN NewWriter(x, p, e, t) /\ Call([op |-> "wnew", w |-> x, f |-> p, enc |-> e, target |-> t]) /\ UNCHANGED big
    [] k = "wblock" -> \E x \in R(WW), n \in R({SmallSize}) : \E q \in R({Pairs(n)}) :
         WriteBlock(x, q[1], q[2]) /\ Call([op |-> "wblock", w |-> x, ids |-> q[1], vals |-> q[2]]) /\ Count(n)
    [] k = "west" -> \E x \in R(WW), n \in R({SmallSize}) : \E q \in R({Pairs(n)}) :
         UNCHANGED vars /\ Call([op |-> "west", w |-> x, ids |-> q[1], vals |-> q[2]]) /\ Count(n)
    [] k = "wbad" -> \E x \in R(DOMAIN wr), n \in R(1..3), m \in R(1..3) : \E q \in R({Pairs(n)}) :
         \* refused: closed, or empty, or of different length
         LET q2 == IF wr[x].st = "closed" THEN q
                   ELSE IF m = 1 THEN << <<>>, <<>> >> ELSE IF m = 2 THEN <<q[1], <<>> >> ELSE <<q[1], q[2] \o <<W0>> >>
         IN  /\ ~(Writable(wr[x]) /\ ValidBlock(q2[1], q2[2]))
             /\ UNCHANGED vars /\ UNCHANGED big
             /\ Call(IF wr[x].st = "closed" /\ m = 1 THEN [op |-> "wfin", w |-> x, close |-> OneIn(2)]
                     ELSE [op |-> "wblock", w |-> x, ids |-> q2[1], vals |-> q2[2]])
    [] k = "wfin" -> \E x \in R(WW), c \in R(BOOLEAN) :
         (IF c THEN FinalizeAndClose(x) ELSE Finalize(x)) /\ Call([op |-> "wfin", w |-> x, close |-> c]) /\ UNCHANGED big
    [] k = "snew" -> \E p \in R(Paths \ Busy), e \in R(0..7), t \in R(Targets \ {0, 80, 4032}) :
         LET x == New(sw) IN NewSimple(x, p, e, t) /\ Call([op |-> "snew", s |-> x, f |-> p, enc |-> e, target |-> t]) /\ UNCHANGED big
    [] k = "swrite" -> \E x \in R(SS), n \in R({IF OneIn(9) THEN 0 ELSE Size}) : \E q \in R({Pairs(n)}) :
         SimpleWrite(x, q[1], q[2], TLCEval(SortBatch([ids |-> q[1], vals |-> q[2]]))) /\ Call([op |-> "swrite", s |-> x, ids |-> q[1], vals |-> q[2]]) /\ Count(n)
    [] k = "sbad" -> \E x \in R(DOMAIN sw), n \in R(1..3), m \in R(1..3) : \E q \in R({Pairs(n)}) :
         LET c == sw[x].closed
         IN  /\ UNCHANGED vars /\ UNCHANGED big
             /\ Call(IF c /\ m = 1 THEN [op |-> "sclose", s |-> x]
                     ELSE IF c /\ m = 2 THEN [op |-> "starget", s |-> x, target |-> 4096]
                     ELSE [op |-> "swrite", s |-> x, ids |-> q[1],
                           vals |-> IF c THEN q[2] ELSE IF m = 1 THEN <<>> ELSE IF m = 2 THEN q[2] \o <<W1>> ELSE SubSeq(q[2], 1, n-1)])
    [] k = "starget" -> \E x \in R(SS), t \in R(Targets \ {0, 80, 4032}) :
         SimpleTarget(x, t) /\ Call([op |-> "starget", s |-> x, target |-> t]) /\ UNCHANGED big
    [] k = "sclose" -> \E x \in R(SS) : SimpleClose(x) /\ Call([op |-> "sclose", s |-> x]) /\ UNCHANGED big
    [] k = "open" -> \E p \in R(Fin) : LET x == New(rd) IN Open(x, p) /\ Call([op |-> "open", rd |-> x, f |-> p]) /\ UNCHANGED big
    [] k = "rclose" -> \E x \in R(OpenR) : CloseReader(x) /\ Call([op |-> "rclose", rd |-> x]) /\ UNCHANGED big
    [] k = "cache" -> \E x \in R(OpenR), on \in R(BOOLEAN) : Caching(x, on) /\ Call([op |-> "cache", rd |-> x, on |-> on]) /\ UNCHANGED big
    [] k \in {"dump", "desc", "bitmap"} -> \E x \in R(OpenR) : UNCHANGED vars /\ Call([op |-> k, rd |-> x]) /\ UNCHANGED big
    [] k \in {"pairs", "hold"} -> \E x \in R(BlockR) : \E b \in R(0..Len(Content(x))), s \in R(BOOLEAN) :
         UNCHANGED vars /\ UNCHANGED big
         /\ Call([op |-> k, rd |-> x, b |-> IF k = "hold" /\ b = Len(Content(x)) THEN 0 ELSE b, scribble |-> s])
    [] k = "agg" -> \E x \in R(OpenR), a \in R({SomeFilter}), d \in R({SomeFilter}), s \in R(BOOLEAN), p \in R({0, 0, 1, 2, 3, 5, -1}) :
         UNCHANGED vars /\ UNCHANGED big /\ Call([op |-> "agg", rd |-> x, allow |-> a, deny |-> d, skip |-> s, par |-> p])
    [] k = "iter" -> \E x \in R(OpenR), a \in R({SomeFilter}), d \in R({SomeFilter}) :
         UNCHANGED vars /\ UNCHANGED big /\ Call([op |-> "iter", rd |-> x, allow |-> a, deny |-> d])
    [] k = "mnew" -> \E n \in R(1..Cardinality(OpenR)) : \E S \in R({RandomSubset(n, OpenR)}) :
         LET m == New(mr)
             q == SetToSeq(S)
         IN  \E o \in R(BOOLEAN) :
               LET rs == IF o THEN q ELSE [i \in 1..n |-> q[n+1-i]]
               IN  NewMulti(m, rs) /\ Call([op |-> "mnew", m |-> m, rds |-> rs]) /\ UNCHANGED big
    [] k = "magg" -> \E m \in R(MM), a \in R({SomeFilter}), s \in R(BOOLEAN) :
         UNCHANGED vars /\ UNCHANGED big /\ Call([op |-> "magg", m |-> m, allow |-> a, skip |-> s])

Init == VCInit /\ hist = <<>> /\ big = 0 /\ idp \in IdPalettes /\ valp \in ValPalettes
\* A kind of call that is possible, drawn with the weights of the mix.
Next == /\ Len(hist) < Length
        /\ Keep
        /\ \E k \in R({SelectSeq(Kinds, On)}) : \E i \in R(DOMAIN k) : Do(k[i])
Written == Len(hist) = Length =>
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ JsonSerialize(IOEnv.GEN_OUT \o ToString(TLCGet(7)) \o ".json", hist)
ASSUME TLCSet(7, 0)
Spec == Init /\ [][Next]_gvars
=============================================================================
