------------------------------- MODULE Faults -------------------------------
(***************************************************************************)
(* The writers at the level of file operations, any of which may fail, and *)
(* callers that go on in any way afterwards (C10, and what C01, C03, C09,  *)
(* C15 need when things fail).                                             *)
(*                                                                         *)
(* A call is a program of operations, executed one at a time.  An          *)
(* operation succeeds or, within the budget of faults, fails:              *)
(*   err:  nothing is done            part: garbage is left (writes only)  *)
(*   late: everything is done, and yet an error is reported (a close       *)
(*         always gives up the handle)                                     *)
(* The call then returns an error at once.                                 *)
(*                                                                         *)
(* The file is a sequence of units.  Unit 0 is the header; a block has two *)
(* units (head and body); id bitmap, index and closing metadata have one.  *)
(* dirty: what is not on the disk yet (-1: the size).  A sync that fails   *)
(* may have forgotten what it was to write (mode "lost"): later syncs do   *)
(* not write it, only writing it anew does.                                *)
(*                                                                         *)
(* With simple = TRUE the caller uses the simple writer: what is written   *)
(* is kept pending until it is in a block; blocks hold up to Cap items and *)
(* a write flushes when FlushAt items are pending.                         *)
(*                                                                         *)
(* Variants (constant Faulty) leave out a part of the protocol, to show    *)
(* that it is needed.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Items,        \* number of items to be written
          Calls,        \* number of calls
          Budget,       \* number of faults
          FlushAt, Cap, \* simple writer
          Faulty,       \* variant, "" is the real one
          Log           \* TRUE: keep the calls in hist

VARIABLES file, pos, dirty, lost, closed,  \* the file: units (from 1), position, unsynced and forgotten units, handle closed
          end, recs,                       \* the writer: end of the last block, recorded blocks [c, off]
          simple, pend, acc, done,         \* simple writer: pending items, accepted items, closed
          acked,                           \* plain writer: items of acknowledged blocks
          prog, call, res, hit,            \* operations left, current call, last result, did something fail in it
          next, calls, faults,             \* next item, calls made, faults so far
          hist

vars == <<file, pos, dirty, lost, closed, end, recs, simple, pend, acc, done, acked, prog, call, res, hit, next, calls, faults, hist>>

\* Positions are 0-based; unit p is file[p+1].
Size(f) == Len(f)
Zero == <<"0">>
Put(f, p, v) == [i \in 1..(IF p + 1 > Len(f) THEN p + 1 ELSE Len(f)) |->
                   IF i = p + 1 THEN v ELSE IF i <= Len(f) THEN f[i] ELSE Zero]
Cut(f, n) == [i \in 1..n |-> IF i <= Len(f) THEN f[i] ELSE Zero]

(* ------------------------------ programs -------------------------------- *)
Op(k, a) == [k |-> k, a |-> a]
Placed == Faulty # "NoTruncate"
ToEnd == (IF Placed THEN <<Op("trunc", end)>> ELSE <<>>) \o (IF Faulty = "NoSeek" THEN <<>> ELSE <<Op("seek", end)>>)
Block(c) ==
  ToEnd \o <<Op("write", <<"h", c>>), Op("write", <<"b", c>>)>>
  \o (IF Faulty = "RecordEarly" THEN <<Op("rec", c), Op("sync", 0)>> ELSE <<Op("sync", 0), Op("rec", c)>>)
\* The parts that depend on the blocks are computed when they are due ("write" with a function of the state).
Final == ToEnd \o <<Op("write", <<"bitmap">>), Op("seek", 0), Op("write", <<"header">>), Op("seekend", 0),
                    Op("write", <<"index">>), Op("sync", 0), Op("write", <<"M">>), Op("sync", 0)>>
Close == IF Faulty = "KeepOpen" THEN <<>> ELSE <<Op("close", 0)>>

Contents(rs) == FoldLeft(LAMBDA a, r : a \o r.c, <<>>, rs)
Value(a) == CASE a = <<"bitmap">> -> <<"bitmap", Contents(recs)>>
              [] a = <<"header">> -> <<"header", Len(recs), end>>
              [] a = <<"index">>  -> <<"index", recs>>
              [] OTHER -> a

(* ------------------------------- calls ---------------------------------- *)
Idle == prog = <<>>
Note(c) == hist' = IF Log THEN Append(hist, c) ELSE hist
Start(c, p) == /\ Idle /\ calls < Calls
               /\ calls' = calls + 1 /\ call' = c /\ prog' = p /\ hit' = FALSE /\ res' = "-"
               /\ Note([op |-> c.op, it |-> c.it, f |-> <<>>])
Same(v) == UNCHANGED v
FileVars == <<file, pos, dirty, lost, closed>>
Upto(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)

\* Plain writer: the next item, or once more one whose block was not acknowledged.
WriteBlock ==
  /\ ~simple
  /\ \E i \in 1..Items :
       /\ i <= next /\ ~\E k \in DOMAIN acked : acked[k] = i
       /\ next' = IF i = next THEN next + 1 ELSE next
       /\ Start([op |-> "block", it |-> i], Block(<<i>>))
  /\ UNCHANGED <<FileVars, end, recs, simple, pend, acc, done, acked, faults>>
Finalize ==
  /\ ~simple /\ Start([op |-> "fin", it |-> 0], Final)
  /\ UNCHANGED <<FileVars, end, recs, simple, pend, acc, done, acked, next, faults>>
FinalizeAndClose ==
  /\ ~simple /\ Start([op |-> "finclose", it |-> 0], Final \o Close)
  /\ UNCHANGED <<FileVars, end, recs, simple, pend, acc, done, acked, next, faults>>
CloseIt ==
  /\ ~simple /\ Start([op |-> "close", it |-> 0], Close)
  /\ UNCHANGED <<FileVars, end, recs, simple, pend, acc, done, acked, next, faults>>

\* Simple writer.  A batch is accepted when it is pending, also if the flush then fails.
FlushNow(p, force) == p # <<>> /\ (force \/ Len(p) >= FlushAt)
FlushProg(p) == <<Op("flush", Upto(p, Cap))>>
SimpleWrite ==
  /\ simple /\ ~done /\ next <= Items
  /\ LET p == Append(pend, next)
     IN  /\ pend' = p /\ acc' = Append(acc, next)
         /\ Start([op |-> "swrite", it |-> next], IF FlushNow(p, FALSE) THEN <<Op("flush", FALSE)>> ELSE <<Op("ret", 0)>>)
  /\ next' = next + 1
  /\ UNCHANGED <<FileVars, end, recs, simple, done, acked, faults>>
SimpleClose ==
  /\ simple /\ ~done
  /\ Start([op |-> "sclose", it |-> 0], <<Op("flush", TRUE), Op("final", 0)>>)
  /\ UNCHANGED <<FileVars, end, recs, simple, pend, acc, done, acked, next, faults>>

(* ------------------------------ operations ------------------------------ *)
Head1 == Head(prog)
Rest  == Tail(prog)
Return(r) == /\ res' = r
             /\ prog' = <<>>
             /\ acked' = IF r = "ok" /\ call.op = "block" THEN Append(acked, call.it) ELSE acked
             /\ done' = (done \/ (r = "ok" /\ call.op = "sclose"))
Go == IF Rest = <<>> THEN Return("ok") ELSE prog' = Rest /\ UNCHANGED <<res, acked, done>>
Quiet == UNCHANGED <<simple, acc, call, next, calls, faults, hist, hit>>

\* The effect of an operation on the file; wr: the value that a write leaves.
Effect(o, v) ==
  CASE o.k = "trunc" -> /\ file' = Cut(file, o.a)
                        /\ dirty' = IF o.a = Len(file) THEN dirty ELSE { p \in dirty : p < o.a } \cup {-1}
                        /\ lost' = { p \in lost : p < o.a }
                        /\ UNCHANGED <<pos, closed>>
    [] o.k = "seek"  -> pos' = o.a /\ UNCHANGED <<file, dirty, lost, closed>>
    [] o.k = "seekend" -> pos' = Len(file) /\ UNCHANGED <<file, dirty, lost, closed>>
    [] o.k = "write" -> /\ file' = Put(file, pos, v) /\ pos' = pos + 1
                        /\ dirty' = dirty \cup {pos} /\ lost' = lost \ {pos}
                        /\ UNCHANGED closed
    [] o.k = "sync"  -> dirty' = {} /\ UNCHANGED <<file, pos, lost, closed>>
    [] o.k = "close" -> closed' = TRUE /\ UNCHANGED <<file, pos, dirty, lost>>

OnFile == {"trunc", "seek", "seekend", "write", "sync", "close"}
\* Whoever uses a closed file gets an error.
Refused == prog # <<>> /\ Head1.k \in OnFile /\ closed
           /\ Return("err") /\ UNCHANGED <<FileVars, end, recs, pend>> /\ Quiet
Success == /\ prog # <<>> /\ Head1.k \in OnFile /\ ~closed
           /\ Effect(Head1, IF Head1.k = "write" THEN Value(Head1.a) ELSE 0)
           /\ end' = IF Faulty = "EndEarly" /\ Head1.k = "write" /\ Head1.a[1] \in {"h", "b"} THEN end + 1 ELSE end
           /\ Go /\ UNCHANGED <<recs, pend>> /\ Quiet
Internal ==
  /\ prog # <<>> /\ Head1.k \notin OnFile
  /\ UNCHANGED FileVars /\ Quiet
  /\ CASE Head1.k = "rec" -> LET off == IF Faulty = "EndEarly" THEN end - 2 ELSE end
                             IN  /\ recs' = Append(recs, [c |-> Head1.a, off |-> off])
                                 /\ end' = off + 2
                                 /\ pend' = IF simple /\ Faulty # "DropPending" THEN SubSeq(pend, Len(Head1.a) + 1, Len(pend)) ELSE pend
                                 /\ Go
       [] Head1.k = "flush" -> \* write pending items as blocks, as long as there are enough
            /\ IF FlushNow(pend, Head1.a)
               THEN prog' = Block(Upto(pend, Cap)) \o prog /\ UNCHANGED <<res, acked, done>>
                    /\ pend' = IF Faulty = "DropPending" THEN SubSeq(pend, Len(Upto(pend, Cap)) + 1, Len(pend)) ELSE pend
               ELSE Go /\ UNCHANGED pend
            /\ UNCHANGED <<end, recs>>
       [] Head1.k = "final" -> prog' = Final \o Close /\ UNCHANGED <<res, acked, done, end, recs, pend>>
       [] Head1.k = "ret" -> Go /\ UNCHANGED <<end, recs, pend>>

Garbage == <<"?">>
Modes(o) == CASE o.k = "write" -> {"err", "part", "late"} [] o.k = "sync" -> {"err", "late", "lost"} [] o.k = "close" -> {"late"} [] OTHER -> {"err", "late"}
Mark(o, m) == hist' = IF Log THEN [hist EXCEPT ![Len(hist)].f = Append(@, [k |-> o.k, a |-> IF o.k = "write" THEN o.a[1] ELSE "", left |-> Len(Rest), m |-> m])] ELSE hist
Swallowed(o) == (Faulty = "SwallowSync" /\ o.k = "sync") \/ (Faulty = "SwallowClose" /\ o.k = "close")
              
Fail(o, m) ==
  /\ ~closed /\ faults < Budget /\ faults' = faults + 1 /\ hit' = TRUE
  /\ CASE m = "err"  -> UNCHANGED FileVars
       [] m = "part" -> Effect(o, Garbage)
       [] m = "lost" -> dirty' = dirty \cap {-1} /\ lost' = lost \cup (dirty \ {-1}) /\ UNCHANGED <<file, pos, closed>>
       [] m = "late" -> Effect(o, IF o.k = "write" THEN Value(o.a) ELSE 0)
  /\ end' = IF Faulty = "EndEarly" /\ o.k = "write" /\ o.a[1] \in {"h", "b"} THEN end + 1 ELSE end
  /\ Mark(o, m)
  /\ IF Swallowed(o) THEN Go ELSE Return("err")
  /\ UNCHANGED <<recs, pend, simple, acc, call, next, calls>>
Failure == prog # <<>> /\ Head1.k \in OnFile /\ \E m \in Modes(Head1) : Fail(Head1, m)

Init == /\ file = <<<<"header", 0, 0>>>> /\ pos = 1 /\ dirty = {0} /\ lost = {} /\ closed = FALSE
        /\ end = 1 /\ recs = <<>> /\ simple \in BOOLEAN /\ pend = <<>> /\ acc = <<>> /\ done = FALSE /\ acked = <<>>
        /\ prog = <<>> /\ call = [op |-> "new", it |-> 0] /\ res = "ok" /\ hit = FALSE
        /\ next = 1 /\ calls = 0 /\ faults = 0 /\ hist = <<>>
Call == WriteBlock \/ Finalize \/ FinalizeAndClose \/ CloseIt \/ SimpleWrite \/ SimpleClose
Next == Call \/ Refused \/ Success \/ Internal \/ Failure
Spec == Init /\ [][Next]_vars

(* ----------------------------- properties ------------------------------- *)
\* What a complete file with the blocks rs looks like, from its first unit to its last.
Complete(f, rs) ==
  /\ Len(f) = 2 * Len(rs) + 4
  /\ f[1] = <<"header", Len(rs), 2 * Len(rs) + 1>>
  /\ \A k \in DOMAIN rs : /\ rs[k].off = 2 * k - 1
                          /\ f[2 * k] = <<"h", rs[k].c>> /\ f[2 * k + 1] = <<"b", rs[k].c>>
  /\ f[2 * Len(rs) + 2] = <<"bitmap", Contents(rs)>>
  /\ f[2 * Len(rs) + 3] = <<"index", rs>>
  /\ f[2 * Len(rs) + 4] = <<"M">>
\* What a reader does not refuse.
Accepted(f) == Len(f) > 1 /\ f[1][1] = "header" /\ f[Len(f)] = <<"M">>
Finals == {"fin", "finclose", "sclose"}
Written == IF simple THEN acc ELSE acked

\* C10: success is reported only if nothing failed.
Honest == res = "ok" => ~hit
\* C10, C01, C03: what was accepted, exactly once, in order, whatever failed before.
ExactlyOnce == Idle /\ res = "ok" /\ call.op \in Finals => Complete(file, recs) /\ Contents(recs) = Written
\* C15
DurableFinal == Idle /\ res = "ok" /\ call.op \in Finals => dirty = {} /\ lost = {}
DurableBlock == Idle /\ res = "ok" /\ call.op = "block" =>
  LET r == recs[Len(recs)] IN r.c = <<call.it>> /\ (dirty \cup lost) \cap {r.off, r.off + 1} = {}
\* C09 (the process may die between any two operations): a file that is accepted is complete.
RefusedOrComplete == Accepted(file) => Complete(file, recs)
\* C22: a writer that is done with, whether or not that failed, has given up its file.
Released == Idle /\ (call.op = "close" \/ (call.op \in {"finclose", "sclose"} /\ res = "ok")) => closed
\* A simple writer never loses or repeats an item.
Kept == simple => Contents(recs) \o pend = acc
\* There are behaviours in which much fails and the file is written nevertheless (checked as a negation).
NeverRecovers == ~(Idle /\ res = "ok" /\ call.op \in Finals /\ faults = Budget /\ Len(Written) >= 2)
=============================================================================
