----------------------------- MODULE GenFaults -----------------------------
(***************************************************************************)
(* Histories of Faults.tla chosen at random by TLC's simulator: what is    *)
(* called, and which operation of which call fails and how.  The harness   *)
(* makes them on the real library with an instrumented package os.         *)
(***************************************************************************)
EXTENDS Faults, Json, IOUtils, Randomization, TLC

R(S) == {RandomElement(S)}
OneIn(n) == RandomElement(1..n) = 1

\* A caller that mostly writes first and finalizes later, and goes on after failures.
MayEnd == calls >= 2 /\ (OneIn(3) \/ next > Items)
Pick ==
  \E e \in R({MayEnd}), x \in R(1..10) :
    IF simple THEN IF e THEN SimpleClose ELSE IF next <= Items THEN SimpleWrite ELSE SimpleClose
    ELSE IF ~e /\ \E i \in 1..Items : i <= next /\ ~\E k \in DOMAIN acked : acked[k] = i THEN WriteBlock ELSE IF x <= 4 THEN Finalize ELSE IF x <= 9 \/ Faulty # "" THEN FinalizeAndClose ELSE CloseIt
GNext ==
  IF Idle THEN ~closed /\ ~done /\ Pick
  ELSE IF Head1.k \in OnFile /\ ~closed
       THEN \E f \in R({OneIn(9) /\ faults < Budget}) : IF f THEN \E m \in R(Modes(Head1)) : Fail(Head1, m) ELSE Success
       ELSE Refused \/ Internal
GSpec == Init /\ [][GNext]_vars

Over == Idle /\ (calls = Calls \/ closed \/ done) /\ faults > 0
Store == Over =>
  /\ TLCSet(7, TLCGet(7) + 1)
  /\ JsonSerialize(IOEnv.GEN_OUT \o ToString(TLCGet(7)) \o ".json", [simple |-> simple, calls |-> hist])
ASSUME TLCSet(7, 0)
=============================================================================
