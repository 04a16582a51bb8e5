------------------------------ MODULE GenReads ------------------------------
(***************************************************************************)
(* Histories of ReadFaults.tla chosen at random by TLC's simulator: what   *)
(* is called, which reads fail, and when files become shorter and are      *)
(* restored.  The harness makes them on the real library with an           *)
(* instrumented package os.                                                *)
(***************************************************************************)
EXTENDS ReadFaults, Json, IOUtils, Randomization, TLC

R(X) == {RandomElement(X)}
OneIn(n) == RandomElement(1..n) = 1
GenShape == <<3, 1, 2>>

AllOpen == \A f \in Nos : st[f] = "open"
Pick ==
  \E f \in R(Nos), x \in R(1..100) :
    IF st[f] # "open" THEN (IF st[f] = "no" \/ x <= 60 THEN OpenFile(f) ELSE IF x <= 75 THEN Pairs(f) ELSE IF x <= 90 THEN Bitmap(f) ELSE Scan(f))
    ELSE IF cut[f] # -1 /\ x <= 25 THEN Restore(f)
    ELSE IF x <= 20 THEN Pairs(f)
    ELSE IF x <= 40 THEN Bitmap(f)
    ELSE IF x <= 44 THEN Agg(f)
    ELSE IF x <= 55 THEN Scan(f)
    ELSE IF x <= 68 /\ (\A g \in Nos : st[g] # "no") THEN Multi
    ELSE IF x <= 80 THEN Caching(f, ~caching[f])
    ELSE IF x <= 90 /\ cut[f] = -1 THEN Shorten(f)
    ELSE IF x <= 93 THEN CloseFile(f)
    ELSE IF x <= 95 /\ AllOpen THEN CloseAll
    ELSE Bitmap(f)
GNext ==
  IF Idle THEN calls < Calls /\ Pick
  ELSE IF Op1.k = "ret" THEN IF acc = Err THEN DoneClose ELSE Done
  ELSE IF Op1.k \in {"have", "index"} THEN Succeed
  ELSE IF Dead(Op1) THEN FailRead
  ELSE \E e \in R({OneIn(9) /\ faults < Budget}) : IF e THEN FailClose \/ FailRead ELSE Succeed
GSpec == Init /\ [][GNext]_vars

Over == Idle /\ calls = Calls
Store == Over =>
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ JsonSerialize(IOEnv.GEN_OUT \o ToString(TLCGet(7)) \o ".json", [shape |-> Shape, calls |-> hist])
ASSUME TLCSet(7, 0)
=============================================================================
