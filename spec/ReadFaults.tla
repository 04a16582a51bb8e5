----------------------------- MODULE ReadFaults -----------------------------
(***************************************************************************)
(* Readers at the level of file operations, any of which may fail, and     *)
(* files that become shorter while they are open and are restored later    *)
(* (C21).                                                                  *)
(*                                                                         *)
(* A file is a sequence of parts: header H, blocks 1..n, size S and data D *)
(* of the id bitmap, count C and entries I of the index, and closing       *)
(* metadata M.  Files are numbered from the oldest to the newest.  Block b of every file holds the same ids, so that of the       *)
(* newest file that has a block b counts in an aggregation of them all.    *)
(*                                                                         *)
(* A call is a sequence of reads, executed one at a time.  A read succeeds *)
(* or fails: because the disk does (within the budget), or because the     *)
(* part is no longer in the file.  A failing read ends the call with an    *)
(* error; only the aggregation of one file, which cannot report one,       *)
(* leaves the block out.                                                   *)
(*                                                                         *)
(* Variants (constant Faulty) leave out a part of this, to show that it is *)
(* needed.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANTS Shape,     \* number of blocks of each file, oldest first
          Calls, Budget,
          Faulty,    \* variant, "" is the real one
          Log        \* TRUE: keep the calls in hist

VARIABLES st, fds,             \* readers: "no" | "open" | "closed"; descriptors held
          caching, cached,     \* id bitmap: kept?  what is kept
          cut,                 \* number of parts that are left of each file, -1: all
          call, prog, acc, hits, res,
          calls, faults, hist

vars == <<st, fds, caching, cached, cut, call, prog, acc, hits, res, calls, faults, hist>>

N == Len(Shape)
Nos == 1..N
Idle == prog = <<>>
Nothing == [none |-> TRUE, s |-> {}]
Kept(s) == [none |-> FALSE, s |-> s]

\* Parts (blocks are numbers from 1), and their positions in the file.
H == 0
S == 101
D == 102
C == 103
I == 104
M == 105
Place(f, p) == IF p > 100 THEN Shape[f] + 1 + p - 100 ELSE p + 1
QuickShape == <<2, 1>>
DeepShape == <<2, 1, 2>>
\* No answers: an error of closing that is still to be reported, and what reading nothing gives.
Err == {<<0, 1>>}
Zeros == {<<0, 0>>}
Parts(f) == Shape[f] + 6
Gone(f, p) == cut[f] >= 0 /\ Place(f, p) > cut[f]

(* ------------------------------- answers --------------------------------- *)
AllBlocks(f) == 1..Shape[f]
IdsOf(f) == { <<f, b>> : b \in AllBlocks(f) }
Newest(b) == CHOOSE f \in Nos : Shape[f] >= b /\ \A g \in Nos : g > f => Shape[g] < b
Truth(c) == CASE c.op = "pairs"  -> {<<c.f, c.b>>}
              [] c.op = "bitmap" -> IdsOf(c.f)
              [] c.op \in {"agg", "scan"} -> IdsOf(c.f)
              [] c.op = "multi"  -> { <<Newest(b), b>> : b \in UNION { AllBlocks(f) : f \in Nos } }
              [] OTHER -> {}

(* -------------------------------- calls ---------------------------------- *)
Init == /\ st = [f \in Nos |-> "no"] /\ fds = [f \in Nos |-> 0]
        /\ caching = [f \in Nos |-> FALSE] /\ cached = [f \in Nos |-> Nothing]
        /\ cut = [f \in Nos |-> -1]
        /\ call = [op |-> "-", f |-> 0, b |-> 0] /\ prog = <<>> /\ acc = {} /\ hits = 0
        /\ res = [r |-> "-", v |-> {}] /\ calls = 0 /\ faults = 0 /\ hist = <<>>

Rd(f, p) == [f |-> f, k |-> "read", p |-> p]
BlockReads(f) == [b \in 1..Shape[f] |-> Rd(f, b)]
BitmapReads(f) == IF caching[f] /\ ~cached[f].none THEN <<[f |-> f, k |-> "have", p |-> 0]>> ELSE <<Rd(f, S), Rd(f, D)>>
Return == <<[f |-> 0, k |-> "ret", p |-> 0]>>

Note(c) == hist' = IF Log THEN Append(hist, [op |-> c.op, f |-> c.f, b |-> c.b, fail |-> <<>>]) ELSE hist
Start(c, p) ==
  /\ Idle /\ calls < Calls
  /\ calls' = calls + 1 /\ call' = c /\ prog' = p \o Return /\ acc' = {} /\ hits' = 0 /\ res' = [r |-> "-", v |-> {}]
  /\ Note(c)
Cl(op, f, b) == [op |-> op, f |-> f, b |-> b]

OpenFile(f) == /\ st[f] # "open"
               /\ Start(Cl("open", f, 0), <<[f |-> f, k |-> "open", p |-> 0], Rd(f, H), Rd(f, M), Rd(f, C), Rd(f, I)>>)
               /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
Pairs(f) == /\ st[f] # "no"
            /\ \E b \in AllBlocks(f) : Start(Cl("pairs", f, b), <<Rd(f, b)>>)
            /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
Bitmap(f) == /\ st[f] # "no" /\ Start(Cl("bitmap", f, 0), BitmapReads(f))
             /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
Agg(f) == /\ st[f] # "no" /\ Start(Cl("agg", f, 0), <<[f |-> f, k |-> "index", p |-> 0]>>)
          /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
Scan(f) == /\ st[f] # "no" /\ Start(Cl("scan", f, 0), BlockReads(f))
           /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
Multi == /\ \A f \in Nos : st[f] # "no"
         /\ LET reads(i) == LET f == N + 1 - i IN BlockReads(f) \o BitmapReads(f)
            IN  Start(Cl("multi", 0, 0), FoldLeft(LAMBDA a, i : a \o reads(i), <<>>, [i \in Nos |-> i]))
         /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
Caching(f, on) == /\ st[f] = "open" /\ caching[f] # on
                  /\ Start(Cl(IF on THEN "on" ELSE "off", f, 0), <<>>)
                  /\ caching' = [caching EXCEPT ![f] = on]
                  /\ cached' = IF on THEN cached ELSE [cached EXCEPT ![f] = Nothing]
                  /\ UNCHANGED <<st, fds, cut, faults>>
CloseOp(f) == [f |-> f, k |-> "close", p |-> 0]
CloseFile(f) == /\ st[f] = "open" /\ Start(Cl("close", f, 0), <<CloseOp(f)>>)
                /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
CloseAll == /\ \A f \in Nos : st[f] = "open"
            /\ Start(Cl("closeall", 0, 0), [f \in Nos |-> CloseOp(f)])
            /\ UNCHANGED <<st, fds, caching, cached, cut, faults>>
\* The environment.
Shorten(f) == /\ Idle /\ cut[f] = -1 /\ st[f] = "open"
              /\ \E k \in 0..Parts(f)-1 : /\ cut' = [cut EXCEPT ![f] = k]
                                          /\ Note(Cl("cut", f, k))
              /\ UNCHANGED <<st, fds, caching, cached, call, prog, acc, hits, res, calls, faults>>
Restore(f) == /\ Idle /\ cut[f] # -1
              /\ cut' = [cut EXCEPT ![f] = -1] /\ Note(Cl("restore", f, 0))
              /\ UNCHANGED <<st, fds, caching, cached, call, prog, acc, hits, res, calls, faults>>

(* ------------------------------ operations ------------------------------- *)
Op1 == Head(prog)
Decided(b) == \E g \in Nos : g > Op1.f /\ b \in AllBlocks(g)
\* What a successful read adds to the answer.
Gain(o) == IF o.k # "read" \/ o.p \in {H, M, C, I, S} THEN {}
           ELSE IF o.p = D THEN IF call.op = "multi" THEN {} ELSE IdsOf(o.f)
           ELSE IF call.op = "multi" /\ Decided(o.p) THEN {} ELSE {<<o.f, o.p>>}
End(r, v) == res' = [r |-> r, v |-> v] /\ prog' = <<>>

Dead(o) == o.k = "read" /\ (st[o.f] = "closed" \/ Gone(o.f, o.p))
Done ==
  /\ ~Idle /\ Op1.k = "ret"
  /\ End("ok", acc)
  /\ st' = IF call.op = "open" THEN [st EXCEPT ![call.f] = "open"] ELSE st
  /\ caching' = IF call.op = "open" THEN [caching EXCEPT ![call.f] = FALSE] ELSE caching
  /\ cached' = IF call.op = "open" THEN [cached EXCEPT ![call.f] = Nothing] ELSE cached
  /\ UNCHANGED <<fds, cut, call, acc, hits, calls, faults, hist>>
Succeed ==
  /\ ~Idle /\ Op1.k # "ret" /\ ~Dead(Op1)
  /\ acc' = acc \cup (IF Op1.k = "index" THEN IdsOf(Op1.f) ELSE IF Op1.k = "have" THEN IF call.op = "multi" THEN {} ELSE cached[Op1.f].s ELSE Gain(Op1))
  /\ cached' = IF Op1.k = "read" /\ Op1.p = D /\ caching[Op1.f] THEN [cached EXCEPT ![Op1.f] = Kept(IdsOf(Op1.f))] ELSE cached
  /\ fds' = CASE Op1.k = "open" -> [fds EXCEPT ![Op1.f] = @ + 1] [] Op1.k = "close" -> [fds EXCEPT ![Op1.f] = 0] [] OTHER -> fds
  /\ st' = IF Op1.k = "close" THEN [st EXCEPT ![Op1.f] = "closed"] ELSE st
  /\ prog' = Tail(prog)
  /\ UNCHANGED <<caching, cut, call, hits, res, calls, faults, hist>>
\* A closing that fails gives up the descriptor all the same; the others follow, and the error is kept in acc.
FailClose ==
  /\ ~Idle /\ Op1.k = "close" /\ faults < Budget
  /\ faults' = faults + 1 /\ hits' = hits + 1
  /\ fds' = [fds EXCEPT ![Op1.f] = 0] /\ st' = [st EXCEPT ![Op1.f] = "closed"]
  /\ IF Len(prog) = 2 \/ Faulty = "first" THEN End("err", {}) /\ UNCHANGED acc
     ELSE /\ prog' = Tail(prog) /\ acc' = Err /\ UNCHANGED res
  /\ hist' = IF Log THEN [hist EXCEPT ![Len(hist)].fail = Append(@, <<Op1.f, 300>>)] ELSE hist
  /\ UNCHANGED <<caching, cached, cut, call, calls>>
DoneClose == \* in place of Done if one of several failed
  /\ ~Idle /\ Op1.k = "ret" /\ acc = Err
  /\ End("err", {})
  /\ UNCHANGED <<st, fds, caching, cached, cut, call, acc, hits, calls, faults, hist>>
Lenient == call.op = "scan" \/ (call.op = "multi" /\ Faulty = "skip" /\ Op1.p \notin {S, D})
FailRead ==
  /\ ~Idle /\ Op1.k \in {"read", "open"} /\ (Dead(Op1) \/ faults < Budget)
  /\ faults' = IF Dead(Op1) THEN faults ELSE faults + 1
  /\ hits' = hits + 1
  /\ IF Lenient THEN prog' = Tail(prog) /\ UNCHANGED <<acc, res>>
     ELSE IF Faulty = "zeros" /\ Op1.k = "read" /\ Gone(Op1.f, Op1.p) THEN prog' = Tail(prog) /\ acc' = acc \cup Zeros /\ UNCHANGED res
     ELSE End("err", {}) /\ UNCHANGED acc
  /\ fds' = IF call.op = "open" /\ Faulty # "leak" THEN [fds EXCEPT ![call.f] = 0] ELSE fds
  /\ cached' = IF Faulty = "keep" /\ Op1.p = D /\ caching[Op1.f] THEN [cached EXCEPT ![Op1.f] = Kept({})] ELSE cached
  /\ st' = IF call.op = "open" THEN [st EXCEPT ![call.f] = "no"] ELSE st
  /\ hist' = IF Log /\ ~Dead(Op1) THEN [hist EXCEPT ![Len(hist)].fail = Append(@, IF Op1.k = "open" THEN <<Op1.f, 200>> ELSE <<Op1.f, Op1.p>>)] ELSE hist
  /\ UNCHANGED <<caching, cut, call, calls>>

Begin == \/ \E f \in Nos : OpenFile(f) \/ Pairs(f) \/ Bitmap(f) \/ Agg(f) \/ Scan(f) \/ CloseFile(f)
                           \/ (\E on \in BOOLEAN : Caching(f, on)) \/ Shorten(f) \/ Restore(f)
         \/ Multi \/ CloseAll
Work == (IF acc = Err THEN DoneClose ELSE Done) \/ Succeed \/ FailClose \/ FailRead
Next == Begin \/ Work
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------- *)
Ended == Idle /\ res.r # "-"
\* An answer is the right one, or there is an error; the aggregation of one file leaves out what cannot be read.
Right == Ended /\ res.r = "ok" /\ call.op # "scan" => res.v = Truth(call)
Partial == Ended /\ call.op = "scan" =>
             res.v \subseteq Truth(call) /\ Cardinality(Truth(call) \ res.v) <= hits
\* Without a failing operation there is no error: what failed earlier does not matter.
Healthy == Ended /\ hits = 0 => res.r = "ok"
\* Errors of closing are reported; nothing stays open that cannot be closed any more.
Closed == Ended /\ call.op \in {"close", "closeall"} =>
            (hits > 0 => res.r = "err") /\ (call.op = "closeall" => \A f \in Nos : st[f] = "closed")
NoLeak == Idle => \A f \in Nos : fds[f] = IF st[f] = "open" THEN 1 ELSE 0
\* To be refuted: histories with failures of every kind exist in which answers are right in the end.
NeverRecovers == ~(Ended /\ res.r = "ok" /\ call.op = "multi" /\ faults = Budget /\ hits = 0 /\ \E f \in Nos : ~cached[f].none)
=============================================================================
