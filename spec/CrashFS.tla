------------------------------- MODULE CrashFS -------------------------------
(***************************************************************************)
(* The write protocol of a column file under process death and power loss  *)
(* (C09, C15): the writer as a sequence of file operations, the disk of    *)
(* Disk.tla, and the rules by which a reader accepts a file and finds its  *)
(* parts.  One unit of length is one region of the file; every region is   *)
(* on a page of its own except that the index and the closing metadata may *)
(* share one (TogetherPage), as they do in files with few blocks.          *)
(*                                                                         *)
(* Regions by offset: 0 header, 1..n blocks, n+1 bitmap, n+2 index, n+3    *)
(* metadata.  Each write stores a value: header "h0" (placeholder) or "h1" *)
(* (final), blocks, bitmap, index and metadata theirs.  A page that was    *)
(* never written but lies within the size reads as "zero".                 *)
(*                                                                         *)
(* Protocol variants, to show that the parts are needed:                   *)
(*   SyncMeta = FALSE: no sync between the index and the metadata          *)
(*   MetaFirst = TRUE: the header is updated after the metadata            *)
(*   SyncEnd = FALSE:  no sync before finalization reports success         *)
(***************************************************************************)
EXTENDS Disk, TLC

CONSTANTS MaxN, SyncMeta, MetaFirst, SyncEnd

VARIABLES n, i, crash            \* blocks; operations executed; FALSE or the crash choice

Wr(off, v) == [k |-> "w", off |-> off, len |-> 1, val |-> v]
Sy == [k |-> "s", off |-> 0, len |-> 0, val |-> "-"]
Tr(off) == [k |-> "t", off |-> off, len |-> 0, val |-> "-"]
\* Offsets are scaled so that DiskPage = 2 puts index and metadata on one page, everything else apart.
At(r, nn) == IF r <= nn + 1 THEN 2 * r ELSE IF r = nn + 2 THEN 2 * nn + 4 ELSE 2 * nn + 5
Blocks(nn) == FoldLeft(LAMBDA a, b : a \o <<Tr(At(b, nn)), Wr(At(b, nn), "b"), Sy>>, <<>>, [b \in 1..nn |-> b])
Program(nn) ==
  <<Wr(0, "h0")>> \o Blocks(nn)
  \o <<Tr(At(nn+1, nn)), Wr(At(nn+1, nn), "m")>>
  \o (IF MetaFirst THEN <<>> ELSE <<Wr(0, "h1")>>)
  \o <<Wr(At(nn+2, nn), "x")>>
  \o (IF SyncMeta THEN <<Sy>> ELSE <<>>)
  \o <<Wr(At(nn+3, nn), "M")>>
  \o (IF MetaFirst THEN <<Wr(0, "h1")>> ELSE <<>>)
  \o (IF SyncEnd THEN <<Sy>> ELSE <<>>)

Ops == Program(n)
\* Content at offset x of the crash image.
LastEl(S) == IF S = {} THEN 0 ELSE MaxIn(S)
ValueAt(x, c) ==
  LET size == SizeAfter(Ops, c.size)
      p == x \div DiskPage
      upto == IF p \in DOMAIN c.keep THEN c.keep[p] ELSE i
      j == LastEl({ j \in 1..upto : Ops[j].k = "w" /\ Ops[j].off = x })
  IN  IF x >= size THEN "none" ELSE IF j = 0 THEN "zero" ELSE Ops[j].val
Size(c) == SizeAfter(Ops, c.size)

\* The reader: magic and version in the header, closing metadata at the end of the file.
Accepted(c) == /\ ValueAt(0, c) \in {"h0", "h1"}
               /\ Size(c) > 0 /\ ValueAt(Size(c) - 1, c) = "M"
Complete(c) == /\ ValueAt(0, c) = "h1"
               /\ \A b \in 1..n : ValueAt(At(b, n), c) = "b"
               /\ ValueAt(At(n+1, n), c) = "m" /\ ValueAt(At(n+2, n), c) = "x" /\ ValueAt(At(n+3, n), c) = "M"

Init == n \in 0..MaxN /\ i = 0 /\ crash = [on |-> FALSE]
Exec == crash.on = FALSE /\ i < Len(Ops) /\ i' = i + 1 /\ UNCHANGED <<n, crash>>
Kill == /\ crash.on = FALSE        \* the process dies, the page cache survives
        /\ crash' = [on |-> TRUE, keep |-> <<>>, size |-> i]
        /\ UNCHANGED <<n, i>>
PowerLoss == /\ crash.on = FALSE
             /\ \E f \in Keeps(Ops, i), s \in SizeChoices(Ops, i) : crash' = [on |-> TRUE, keep |-> f, size |-> s]
             /\ UNCHANGED <<n, i>>
Next == Exec \/ Kill \/ PowerLoss
Spec == Init /\ [][Next]_<<n, i, crash>>

\* C09
RefusedOrComplete == crash.on => (Accepted(crash) => Complete(crash))
\* C15
Reported == i = Len(Ops)
Durable == crash.on /\ Reported => Accepted(crash) /\ Complete(crash)
\* A block write has returned after its sync.
BlocksDurable == crash.on => \A b \in 1..n : LastSync(Ops, i) >= 1 + 3 * b => ValueAt(At(b, n), crash) = "b"
\* The protocol gets to every kind of crash: accepted and refused ones exist (checked as a negation).
SomeAccepted == ~(crash.on /\ Accepted(crash))
=============================================================================
