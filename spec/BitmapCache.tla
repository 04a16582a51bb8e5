---------------------------- MODULE BitmapCache ----------------------------
(***************************************************************************)
(* The optional cache of a reader's id bitmap, used by several goroutines  *)
(* (C08, C12).  Get: if caching is on and there is a cached bitmap, return *)
(* it; otherwise read it from the file and, if caching is on, keep it.     *)
(* Switch: caching on, or off and the cached bitmap dropped.               *)
(*                                                                         *)
(* Steps on the shared variables are accesses; two goroutines inside       *)
(* accesses at the same time, one of them writing, are a data race.        *)
(*   Locked = FALSE: without the mutex                                     *)
(*   StaleFlag = TRUE: the decision to keep the bitmap is taken before the *)
(*                     file is read, and the lock given up in between      *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Procs, Calls, Locked, StaleFlag

VARIABLES cacheOn, cached,       \* shared
          lock,                  \* holder or "free"
          pc, want, left, got, keep

vars == <<cacheOn, cached, lock, pc, want, left, got, keep>>
Init == /\ cacheOn \in BOOLEAN /\ cached = "none" /\ lock = "free"
        /\ pc = [p \in Procs |-> "idle"] /\ want = [p \in Procs |-> "-"]
        /\ left = [p \in Procs |-> Calls] /\ got = [p \in Procs |-> "-"] /\ keep = [p \in Procs |-> FALSE]
Start(p) == /\ pc[p] = "idle" /\ left[p] > 0
            /\ \E w \in {"get", "on", "off"} : want' = [want EXCEPT ![p] = w]
            /\ pc' = [pc EXCEPT ![p] = "enter"] /\ left' = [left EXCEPT ![p] = @ - 1]
            /\ UNCHANGED <<cacheOn, cached, lock, got, keep>>
Enter(p) == /\ pc[p] = "enter" /\ (Locked => lock = "free")
            /\ lock' = IF Locked THEN p ELSE lock
            /\ pc' = [pc EXCEPT ![p] = IF want[p] = "get" THEN "look" ELSE "set"]
            /\ UNCHANGED <<cacheOn, cached, want, left, got, keep>>
Look(p) == /\ pc[p] = "look"
           /\ IF cacheOn /\ cached # "none"
              THEN got' = [got EXCEPT ![p] = cached] /\ pc' = [pc EXCEPT ![p] = "leave"] /\ UNCHANGED keep
              ELSE pc' = [pc EXCEPT ![p] = "read"] /\ keep' = [keep EXCEPT ![p] = cacheOn] /\ UNCHANGED got
           /\ lock' = IF StaleFlag /\ pc'[p] = "read" THEN "free" ELSE lock
           /\ UNCHANGED <<cacheOn, cached, want, left>>
\* Reading the file.
Read(p) == /\ pc[p] = "read" /\ (Locked /\ StaleFlag => lock = "free")
           /\ lock' = IF Locked /\ StaleFlag THEN p ELSE lock
           /\ got' = [got EXCEPT ![p] = "bitmap"]
           /\ pc' = [pc EXCEPT ![p] = "store"] /\ UNCHANGED <<cacheOn, cached, want, left, keep>>
Store(p) == /\ pc[p] = "store"
            /\ cached' = IF (IF StaleFlag THEN keep[p] ELSE cacheOn) THEN "bitmap" ELSE cached
            /\ pc' = [pc EXCEPT ![p] = "leave"] /\ UNCHANGED <<cacheOn, lock, want, left, got, keep>>
Set(p) == /\ pc[p] = "set"
          /\ cacheOn' = (want[p] = "on")
          /\ cached' = IF want[p] = "off" THEN "none" ELSE cached
          /\ pc' = [pc EXCEPT ![p] = "leave"] /\ UNCHANGED <<lock, want, left, got, keep>>
Leave(p) == /\ pc[p] = "leave"
            /\ lock' = IF lock = p THEN "free" ELSE lock
            /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED <<cacheOn, cached, want, left, got, keep>>
Next == \E p \in Procs : Start(p) \/ Enter(p) \/ Look(p) \/ Read(p) \/ Store(p) \/ Set(p) \/ Leave(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : SF_vars(Enter(p)) /\ WF_vars(Look(p) \/ Read(p) \/ Store(p) \/ Set(p) \/ Leave(p))

\* Accesses to the shared variables that are about to happen.
Reads(p)  == pc[p] \in {"look", "store"}
Writes(p) == pc[p] \in {"store", "set"}
NoRace == \A p, q \in Procs : p # q => ~(Writes(p) /\ (Reads(q) \/ Writes(q)))
\* Every call returns the bitmap of the file.
Correct == \A p \in Procs : pc[p] = "leave" /\ want[p] = "get" => got[p] = "bitmap"
\* Nothing is kept while caching is off and nobody is at work.
NothingKept == (\A p \in Procs : pc[p] = "idle") => (~cacheOn => cached = "none")
Returns == \A p \in Procs : pc[p] = "enter" ~> pc[p] = "idle"
=============================================================================
