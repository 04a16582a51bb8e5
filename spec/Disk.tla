-------------------------------- MODULE Disk --------------------------------
(***************************************************************************)
(* A file on a disk with a page cache.  Operations on the file:            *)
(*    [k |-> "w", off, len]   write len bytes at off                       *)
(*    [k |-> "t", off, len]   set the size to off (len is 0)               *)
(*    [k |-> "s", off, len]   sync: everything before is on the disk       *)
(* After an operation log ops has been executed up to and including i, a   *)
(* power loss leaves, for every page touched since the last sync, the page *)
(* as it was at that sync or after any later write to it, independently of *)
(* the other pages.  Changes of the size are applied in order, so that a   *)
(* truncation is never undone by a write that came after it.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CONSTANT DiskPage                \* atomic unit of writing

Pages(op) == IF op.k = "w" /\ op.len > 0 THEN (op.off \div DiskPage)..((op.off + op.len - 1) \div DiskPage) ELSE {}

MaxOf(a, b) == IF a > b THEN a ELSE b
SizeStep(n, op) == IF op.k = "w" THEN MaxOf(n, op.off + op.len) ELSE IF op.k = "t" THEN op.off ELSE n
SizeAfter(ops, i) == FoldLeft(SizeStep, 0, SubSeq(ops, 1, i))

\* The last sync at or before i (0: none).
LastSync(ops, i) == LET S == { j \in 1..i : ops[j].k = "s" } IN IF S = {} THEN 0 ELSE CHOOSE j \in S : \A x \in S : x <= j

\* Writes since then, and the pages they touch.
Window(ops, i)  == { j \in LastSync(ops, i)+1..i : ops[j].k = "w" }
Dirty(ops, i)   == UNION { Pages(ops[j]) : j \in Window(ops, i) }
Writers(ops, i, p) == { j \in Window(ops, i) : p \in Pages(ops[j]) }

(***************************************************************************)
(* Power loss: a choice of                                                 *)
(*   keep: page -> the last write that reached it (LastSync: none)         *)
(*   size: the index of the operation whose file size is on the disk       *)
(***************************************************************************)
Keeps(ops, i) ==
  { f \in [Dirty(ops, i) -> {LastSync(ops, i)} \cup Window(ops, i)] :
      \A p \in Dirty(ops, i) : f[p] = LastSync(ops, i) \/ f[p] \in Writers(ops, i, p) }
\* All or nothing per page, except for at most one page.
MaxIn(S) == CHOOSE x \in S : \A y \in S : y <= x
Extremes(ops, i) ==
  LET ls == LastSync(ops, i)
      D  == Dirty(ops, i)
  IN  { [p \in D |-> IF p \in S THEN MaxIn(Writers(ops, i, p)) ELSE ls] : S \in SUBSET D }
NearExtremes(ops, i) ==
  Extremes(ops, i) \cup
  UNION { UNION { { [f EXCEPT ![p] = j] : j \in Writers(ops, i, p) } : p \in Dirty(ops, i) } : f \in Extremes(ops, i) }
SizeChoices(ops, i) ==
  LET ls == LastSync(ops, i)
      tr == { j \in ls+1..i : ops[j].k = "t" }
      lo == IF tr = {} THEN ls ELSE MaxIn(tr)
  IN  {lo, i} \cup { j \in lo+1..i : ops[j].k = "w" /\ SizeAfter(ops, j) # SizeAfter(ops, j-1) }

(***************************************************************************)
(* What is not yet on the disk: intervals of bytes, adjacent ones merged,  *)
(* whether the size changed, and pages that a failed sync gave up.         *)
(***************************************************************************)
CleanDisk == [dirty |-> <<>>, size |-> FALSE, lost |-> {}]
DiskWrite(d, off, len) ==
  LET n == Len(d.dirty)
      e == IF len = 0 THEN d
           ELSE IF n > 0 /\ d.dirty[n].lo <= off /\ off <= d.dirty[n].hi
           THEN [d EXCEPT !.dirty[n].hi = MaxOf(@, off + len)]
           ELSE [d EXCEPT !.dirty = Append(@, [lo |-> off, hi |-> off + len])]
  IN  IF d.lost = {} \/ len = 0 THEN e
      ELSE [e EXCEPT !.lost = @ \ ((off \div DiskPage)..((off + len - 1) \div DiskPage))]
DiskTruncate(d, size) ==
  [dirty |-> SelectSeq([i \in DOMAIN d.dirty |-> [d.dirty[i] EXCEPT !.hi = IF @ > size THEN size ELSE @]], LAMBDA x : x.lo < x.hi),
   size |-> TRUE, lost |-> { p \in d.lost : p * DiskPage < size }]
DiskSync(d) == [CleanDisk EXCEPT !.lost = d.lost]
\* A sync that failed may have dropped what it was to write: a later sync succeeds without it (as on
\* Linux), unless something is written to the page again.
DiskLose(d) ==
  [d EXCEPT !.dirty = <<>>,
            !.lost = @ \cup UNION { (d.dirty[i].lo \div DiskPage)..((d.dirty[i].hi - 1) \div DiskPage) : i \in DOMAIN d.dirty }]
OnDisk(d, lo, hi) == /\ \A i \in DOMAIN d.dirty : d.dirty[i].hi <= lo \/ hi <= d.dirty[i].lo
                     /\ \A p \in d.lost : (p + 1) * DiskPage <= lo \/ hi <= p * DiskPage
AllOnDisk(d) == d = CleanDisk
=============================================================================
