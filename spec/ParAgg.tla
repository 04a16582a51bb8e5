------------------------------- MODULE ParAgg -------------------------------
(***************************************************************************)
(* Parallel aggregation (C06): Workers goroutines, each with a contiguous  *)
(* chunk of the candidate blocks, reading block by block; each sends its   *)
(* partial result to a buffered channel; when all are done the results are *)
(* merged in the order in which they arrived.                              *)
(*                                                                         *)
(* A worker without pairs may send nothing, or a neutral partial result    *)
(* with count zero and extreme minimum and maximum.  Variant:              *)
(*   Merge = "count"  results are merged as ColFile!AggMerge does          *)
(*   Merge = "naive"  a partial result of count zero takes part with its   *)
(*                    zero minimum and maximum                             *)
(*   Merge = "eager"  the aggregation returns when there is a result       *)
(*   Chunks = "drop"  the remainder of an uneven division is left out      *)
(***************************************************************************)
EXTENDS ColFile

CONSTANTS MaxBlocks, MaxWorkers, Vals, Merge, Chunks

VARIABLES blocks, deny, n, wk, chan, done, result

vars == <<blocks, deny, n, wk, chan, done, result>>
PVals == {<<0,0,1>>, <<8,0,0>>, <<15,7,7>>}     \* 1, the smallest, -1
PVals2 == {<<0,0,1>>, <<8,0,0>>}
Ids == {<<0,0,1>>, <<0,0,2>>}
Block(id, v) == [ids |-> <<id>>, vals |-> <<v>>]

Sel(id) == id \notin deny
Part(k) == IF Chunks = "drop"
           THEN LET c == Len(blocks) \div n IN [lo |-> k * c, hi |-> (k + 1) * c]
           ELSE Chunk(Len(blocks), n, k)
AggSel(b) == LET s(id) == Sel(id) IN AggBlock(ZeroAgg, b, s)

Init == /\ blocks \in UNION { [1..k -> { Block(i, v) : i \in Ids, v \in Vals }] : k \in 0..MaxBlocks }
        /\ deny \in SUBSET Ids
        /\ n \in 1..MaxWorkers
        /\ wk = [k \in 0..n-1 |-> [at |-> Part(k).lo, acc |-> ZeroAgg, st |-> "run"]]
        /\ chan = <<>> /\ done = FALSE /\ result = ZeroAgg
Read(k) == /\ wk[k].st = "run" /\ wk[k].at < Part(k).hi
           /\ wk' = [wk EXCEPT ![k].at = @ + 1, ![k].acc = AggMerge(@, AggSel(blocks[wk[k].at + 1]))]
           /\ UNCHANGED <<blocks, deny, n, chan, done, result>>
Send(k) == /\ wk[k].st = "run" /\ wk[k].at >= Part(k).hi
           /\ wk' = [wk EXCEPT ![k].st = "done"]
           /\ \/ chan' = Append(chan, wk[k].acc)
              \/ wk[k].acc.count = 0 /\ Part(k).lo >= Part(k).hi /\ chan' = chan
           /\ UNCHANGED <<blocks, deny, n, done, result>>
NaiveMerge(x, y) == [count |-> x.count + y.count,
                     min |-> IF WSLess(y.min, x.min) THEN y.min ELSE x.min,
                     max |-> IF WSLess(x.max, y.max) THEN y.max ELSE x.max,
                     sum |-> WAdd(x.sum, y.sum)]
Collect == /\ ~done
           /\ \A k \in 0..n-1 : wk[k].st = "done" \/ (Merge = "eager" /\ chan # <<>>)
           /\ done' = TRUE
           /\ result' = IF chan = <<>> THEN ZeroAgg
                        ELSE IF Merge = "naive" THEN FoldLeft(NaiveMerge, chan[1], Tail(chan))
                        ELSE FoldLeft(AggMerge, ZeroAgg, chan)
           /\ UNCHANGED <<blocks, deny, n, wk, chan>>
Next == Collect \/ \E k \in 0..n-1 : Read(k) \/ Send(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Sequential == LET s(id) == Sel(id) IN AggBlocks(blocks, s)
ParallelSame == done => result = Sequential
\* C22: when an aggregation has returned none of its goroutines is left.
NoneLeft == done => \A k \in 0..n-1 : wk[k].st = "done"
\* No send blocks: the channel has room for one result per worker.
ChannelFits == Len(chan) <= n
Finishes == <>done
=============================================================================
