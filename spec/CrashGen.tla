------------------------------ MODULE CrashGen ------------------------------
(***************************************************************************)
(* Crash images for recorded operation logs.  The input is a JSON array of *)
(*    [name, start, ops]                                                   *)
(* with the operations on one file as recorded from the real code (ops up  *)
(* to start set up the file's previous content); the output is, for each   *)
(* log, an array of crash states as Disk.tla defines them:                 *)
(*    [k |-> "kill", i, b]           process death: the operations up to i,*)
(*                                   and b bytes of the next write         *)
(*    [k |-> "power", i, keep, size] power loss after operation i: page ->  *)
(*                                   last write that reached it            *)
(* Small writes are cut at every byte, large ones at places around page    *)
(* boundaries.  Full = FALSE thins out power losses in the middle of a     *)
(* window between two syncs.                                               *)
(***************************************************************************)
EXTENDS Disk, Json, IOUtils, TLC

Full == IOEnv.CRASH_FULL = "1"
Logs == JsonDeserialize(IOEnv.CRASH_IN)

Cuts(len) == IF len <= 16 THEN 1..len-1
             ELSE { x \in {1, 4, 8, len \div 2, len - 24, len - 8, len - 1} : x > 0 /\ x < len }
                  \cup { x \in { DiskPage * k : k \in 1..(len \div DiskPage) } : x < len }
KillsAt(ops, i) == { [k |-> "kill", i |-> i, b |-> b] :
                       b \in {0} \cup (IF i < Len(ops) /\ ops[i+1].k = "w" THEN Cuts(ops[i+1].len) ELSE {}) }
Flat(f) == LET D == DOMAIN f IN SetToSeq({ <<p, f[p]>> : p \in D })
Power(ops, i, f, s) == [k |-> "power", i |-> i, keep |-> Flat(f), size |-> s]
\* Pages of the window: few enough for all subsets.
Narrow(ops, i) == Cardinality(Dirty(ops, i)) <= 6
Ends(ops, i) == { [p \in Dirty(ops, i) |-> LastSync(ops, i)], [p \in Dirty(ops, i) |-> MaxIn(Writers(ops, i, p))] }
PowerAt(ops, i, full) ==
  LET ex == IF Narrow(ops, i) THEN Extremes(ops, i) ELSE Ends(ops, i)
      ne == IF full /\ Narrow(ops, i) THEN NearExtremes(ops, i) ELSE ex
      sz == SizeChoices(ops, i)
      few == { s \in sz : s = i \/ s + 4 >= i \/ s = LastSync(ops, i) }
  IN  { Power(ops, i, f, i) : f \in ne } \cup { Power(ops, i, f, s) : f \in ex, s \in IF full THEN sz ELSE few }
\* Windows end before a sync and at the end of the log.
WindowEnds(ops, start) == { i \in start+1..Len(ops) : i = Len(ops) \/ ops[i+1].k = "s" }
Last3(S) == LET a == MaxIn(S)
                T == S \ {a}
            IN  IF T = {} THEN {a} ELSE LET b == MaxIn(T) IN {a, b} \cup (LET U == T \ {b} IN IF U = {} THEN {} ELSE {MaxIn(U)})
PowerPoints(log) ==
  LET W == WindowEnds(log.ops, log.start)
      close == Last3(W)
  IN  [all |-> IF Full \/ log.middle THEN { i \in log.start+1..Len(log.ops) : log.ops[i].k # "s" /\ (Full \/ i + 40 > Len(log.ops)) } ELSE {},
       ends |-> W, full |-> close]
\* Many operations on many pages: a sample of each kind of crash.  Pages keep what they had, have
\* everything, or any of the writes to them.
Pick(S) == RandomElement(S)
ManyAt(ops, i) ==
  LET ls == LastSync(ops, i)
      D == Dirty(ops, i)
      one(p, how) == CASE how = 0 -> ls [] how = 1 -> MaxIn(Writers(ops, i, p)) [] OTHER -> Pick({ls} \cup Writers(ops, i, p))
      tr == { j \in ls+1..i : ops[j].k = "t" }
      lo == IF tr = {} THEN ls ELSE MaxIn(tr)
  IN  { Power(ops, i, f, s) : s \in {i, Pick(lo..i)},
          f \in { [p \in D |-> one(p, Pick(0..2))], [p \in D |-> one(p, Pick(0..1))] }
                 \cup { [p \in D |-> one(p, IF p = q THEN 1 - h ELSE h)] : q \in (IF D = {} THEN {} ELSE {Pick(D)}), h \in 0..1 } }
Sample(log) ==
  LET ops == log.ops
      n == Len(ops)
      some == { Pick(log.start+1..n) : j \in 1..log.sample } \cup { i \in log.start+1..n : i > n - 30 }
      cut(i) == IF i < n /\ ops[i+1].k = "w" THEN {0, Pick(0..ops[i+1].len-1)} ELSE {0}
  IN  UNION { { [k |-> "kill", i |-> i, b |-> b] : b \in cut(i) } : i \in some }
      \cup UNION { ManyAt(ops, i) : i \in some }
CrashesOf(log) ==
  IF log.sample > 0 THEN Sample(log) ELSE
  LET pp == PowerPoints(log)
  IN  UNION { KillsAt(log.ops, i) : i \in { i \in log.start+1..Len(log.ops) : log.kills \/ i + 60 > Len(log.ops) } }
      \cup UNION { PowerAt(log.ops, i, i \in pp.full) : i \in pp.ends \cup pp.all }

VARIABLE k
Init == k = 1
Next == /\ k <= Len(Logs)
        /\ JsonSerialize(IOEnv.CRASH_OUT \o ToString(k) \o ".json", SetToSeq(CrashesOf(Logs[k])))
        /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
