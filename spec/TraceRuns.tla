------------------------------ MODULE TraceRuns ------------------------------
(***************************************************************************)
(* Validation of traces whose columns are compressed (Runs.tla): the same  *)
(* actions and facts as in TraceVibeCol.tla, with the operators on columns *)
(* and id sets replaced (TraceRuns.cfg), and some events for files of very *)
(* many blocks.                                                            *)
(***************************************************************************)
EXTENDS TraceVibeCol, Runs

(***************************************************************************)
(* A file of very many blocks of k pairs each (the last one may have       *)
(* less).  No answer but the list of candidate blocks depends on how the   *)
(* pairs are divided into blocks, so the file is followed as one block.    *)
(***************************************************************************)
VARIABLE bulk      \* path -> [k, n]: pairs per block, number of blocks

TBulk(e) ==
  /\ files' = Put(files, e.f, Finished(e.enc, e.target, <<[ids |-> e.ids, vals |-> e.vals, off |-> 0, size |-> 0]>>))
  /\ bulk' = Put(bulk, e.f, [k |-> e.k, n |-> (RLen(e.ids) + e.k - 1) \div e.k])
  /\ UNCHANGED <<wr, sw, rd, mr>>
  /\ Step({})
BulkOf(e) == bulk[rd[e.rd].path]
BulkBlock(e) == Content(e.rd)[1]
\* All blocks read in order; blocks: their number, as the reader says, sizes: those of all but the last.
TBulkRead(e) ==
  /\ Same /\ UNCHANGED bulk
  /\ Step(F("desc", e.nblocks = BulkOf(e).n)
          \cup F("dump", /\ e.r = "ok" /\ e.nblocks = BulkOf(e).n
                         /\ \A i \in DOMAIN e.sizes : e.sizes[i] = BulkOf(e).k
                         /\ RSameCol(e.ids, BulkBlock(e).ids) /\ RSameCol(e.vals, BulkBlock(e).vals)))
RDrop(c, n) == FoldLeft(LAMBDA a, s : IF a.skip >= s[3] THEN [a EXCEPT !.skip = @ - s[3]]
                                      ELSE [skip |-> 0, out |-> Append(a.out, Cut(s, a.skip, s[3] - a.skip))],
                        [skip |-> n, out |-> <<>>], c).out
\* One block (b may be out of range, which -1 stands for).
TBulkPairs(e) ==
  LET q == BulkOf(e)
      part(c) == RTake(RDrop(c, e.b * q.k), q.k)
  IN  /\ Same /\ UNCHANGED bulk
      /\ Step(IF e.b \in 0..q.n-1
              THEN F("pairs", e.r = "ok" /\ RSameCol(e.ids, part(BulkBlock(e).ids)) /\ RSameCol(e.vals, part(BulkBlock(e).vals)))
              ELSE F("reject", e.r = "err") \cup F("range", e.r = "err"))
\* Candidate blocks: the list as increasing progressions <<first, step, count>> of block numbers.
TBulkIter(e) ==
  LET q == BulkOf(e)
      b == BulkBlock(e)
      ivs == Chosen(Filt(e.allow), Filt(e.deny))
      last(p) == p[1] + p[2] * (p[3] - 1)
      \* blocks that must be visited, as sets of ranges (ids of a segment are in one direction)
      must == { <<k, j>> \in (1..Len(b.ids)) \X (1..Len(ivs)) :
                  LET r == SpanIn(b.ids[k], ivs[j][1], ivs[j][2]) IN r[1] # r[2] }
      before(k) == FoldLeft(LAMBDA a, i : a + b.ids[i][3], 0, [i \in 1..k-1 |-> i])
      covered(lo, hi) == \* every block number in lo..hi is in the list
        LET n(p) == IF last(p) < lo \/ p[1] > hi THEN 0
                    ELSE LET f == IF p[1] >= lo THEN p[1] ELSE p[1] + p[2] * ((lo - p[1] + p[2] - 1) \div p[2])
                             z == IF last(p) <= hi THEN last(p) ELSE p[1] + p[2] * ((hi - p[1]) \div p[2])
                         IN  IF f > z THEN 0 ELSE (z - f) \div p[2] + 1
        IN  FoldLeft(LAMBDA a, p : a + n(p), 0, e.list) = hi - lo + 1
  IN  /\ Same /\ UNCHANGED bulk
      /\ Step(F("iter", /\ \A i \in DOMAIN e.list : e.list[i][1] >= 0 /\ e.list[i][2] > 0 /\ last(e.list[i]) < q.n
                                                    /\ (i > 1 => last(e.list[i-1]) < e.list[i][1])
                        /\ \A kj \in must :
                             LET r == SpanIn(b.ids[kj[1]], ivs[kj[2]][1], ivs[kj[2]][2])
                                 o == before(kj[1])
                             IN  covered((o + r[1]) \div q.k, (o + r[2] - 1) \div q.k))
              \cup F("nomut", ~e.mut))

RunsAct(e) ==
  CASE e.op = "bulk"   -> TBulk(e)
    [] e.op = "bread"  -> TBulkRead(e)
    [] e.op = "bpairs" -> TBulkPairs(e)
    [] e.op = "biter"  -> TBulkIter(e)
    [] OTHER           -> Act(e) /\ UNCHANGED bulk

RunsInit == TraceInit /\ bulk = <<>>
RunsNext == \/ /\ l <= Len(Traces[tid].ev)
               /\ IF Ev.op = "io" THEN TIO(Ev) /\ UNCHANGED bulk ELSE RunsAct(Ev) /\ UNCHANGED dk
               /\ l' = l + 1 /\ tid' = tid
            \/ TraceEnd /\ UNCHANGED bulk
RunsSpec == RunsInit /\ [][RunsNext]_<<vars, tid, l, bad, dk, bulk>>
=============================================================================
