------------------------------- MODULE MCRuns -------------------------------
(***************************************************************************)
(* Runs.tla against the operators it stands for, for 10-bit words: all     *)
(* columns of up to two progressions with starts, steps and lengths from   *)
(* small sets around the boundaries, cut as Runs.tla says.                 *)
(***************************************************************************)
EXTENDS Runs

CONSTANTS Starts, Steps, MaxN, Encs

VARIABLES ids, vals, step

S0 == {<<0,0,0>>, <<0,0,3>>, <<0,7,6>>, <<7,7,7>>, <<8,0,1>>, <<15,7,6>>}
D0 == {<<0,0,0>>, <<0,0,1>>, <<0,0,3>>, <<0,6,1>>, <<15,7,7>>, <<15,7,2>>}
S1 == {<<0,0,0>>, <<0,7,6>>, <<7,7,7>>, <<15,7,6>>}
D1 == {<<0,0,1>>, <<0,6,1>>, <<15,7,7>>}
S2 == {<<0,0,0>>, <<7,7,7>>, <<15,7,6>>}
D2 == {<<0,0,1>>, <<15,7,7>>}

Expand1(s) == [i \in 1..s[3] |-> At0(s, i - 1)]
Expand(c)  == FoldLeft(LAMBDA a, s : a \o Expand1(s), <<>>, c)
OneWay(s, L(_, _)) == LET x == Expand1(s)
                      IN  \/ \A i \in 2..s[3] : x[i] = x[i-1]
                          \/ \A i \in 2..s[3] : L(x[i-1], x[i])
                          \/ \A i \in 2..s[3] : L(x[i], x[i-1])
Segs(n) == IF n = 1 THEN { <<s, W0, 1>> : s \in Starts } ELSE { <<s, d, n>> : s \in Starts, d \in Steps }
IdSegs(n)  == { s \in Segs(n) : OneWay(s, WULess) }
ValSegs(n) == { s \in Segs(n) : OneWay(s, WSLess) }
Ext == 1..MaxN

\* Columns are extended by a progression at a time; the two columns are cut alike.
Init == VCInit /\ ids = <<>> /\ vals = <<>> /\ step = 0
Next == /\ UNCHANGED vars /\ step < 2 /\ step' = step + 1
        /\ \E n \in Ext : \E s \in IdSegs(n), v \in ValSegs(n) : ids' = Append(ids, s) /\ vals' = Append(vals, v)
Spec == Init /\ [][Next]_<<vars, ids, vals, step>>

xi == Expand(ids)
xv == Expand(vals)
n0 == Len(xi)
Plain == [ids |-> xi, vals |-> xv]
Comp  == [ids |-> ids, vals |-> vals]
\* A second block: the values as ids.
OneWayCol(c, L(_, _)) == \A k \in 1..Len(c) : OneWay(c[k], L)

Columns == ids # <<>> =>
  /\ RLen(ids) = n0
  /\ \A k \in 0..n0 : Expand(RTake(ids, k)) = SubSeq(xi, 1, k)
  /\ Expand(Canon(ids)) = xi
  /\ \A k \in 1..n0-1 :   \* any other cut has the same form
       Canon(RTake(ids, k) \o [i \in 1..n0-k |-> <<xi[k+i], W0, 1>>]) = Canon(ids)
  /\ Canon([i \in 1..n0 |-> <<xi[i], W0, 1>>]) = Canon(ids)
  /\ Canon([i \in 1..n0 |-> <<xi[i], W0, 1>>]) # Canon([i \in 1..n0 |-> <<IF i = n0 THEN WAdd(xi[i], W1) ELSE xi[i], W0, 1>>])
Sizes == ids # <<>> => \A e \in Encs :
  /\ RIdSectionSize(e, ids) = IdSectionSize(e, xi)
  /\ RValSectionSize(e, vals) = ValSectionSize(e, xv)
  /\ \A t \in {0, 16, 32, 48, 80} : RFitN(e, ids, vals, HeaderSize, t) = FitN(e, xi, xv, HeaderSize, t)

Ivs == { <<>> } \cup { <<<<a, b>>>> : a \in {W0, <<0,0,4>>, <<7,7,7>>}, b \in {<<7,7,7>>, <<8,0,4>>, WMaxU} }
         \cup { <<<<<<0,0,1>>, <<0,0,3>>>>, <<<<0,1,0>>, <<8,0,2>>>>>> }
Fs == { [has |-> FALSE, ivs |-> <<>>] } \cup { [has |-> TRUE, ivs |-> v] : v \in Ivs }
P(f) == [has |-> f.has, ids |-> {}, ivs |-> Range(f.ivs)]
Aggs == ids # <<>> => \A a \in Fs, d \in Fs :
  /\ RAggFiltered(<<Comp>>, a, d) = AggFiltered(<<Plain>>, P(a), P(d))
  /\ RMustVisit(<<Comp, [Comp EXCEPT !.ids = RTake(@, 1)]>>, a, d)
       = MustVisit(<<Plain, [Plain EXCEPT !.ids = SubSeq(@, 1, 1)]>>, P(a), P(d))
SetSame(R, S) == /\ \A w \in S : \E i \in 1..Len(R) : WULeq(R[i][1], w) /\ WULeq(w, R[i][2])
                 /\ \A i \in 1..Len(R) : R[i][1] \in S /\ R[i][2] \in S
                                         /\ (R[i][1] # R[i][2] => WAdd(R[i][1], W1) \in S)
                 /\ \A i \in 2..Len(R) : WULess(WAdd(R[i-1][2], W1), R[i][1])
Sets == ids # <<>> =>
  /\ SetSame(RIdSet(<<Comp>>), IdSet(<<Plain>>))
  /\ LET swapped == [ids |-> vals, vals |-> ids]
         pswapped == [ids |-> xv, vals |-> xi]
     IN  (OneWayCol(vals, WULess) /\ OneWayCol(ids, WSLess)) =>
         /\ SetSame(RIdSet(<<Comp, swapped>>), IdSet(<<Plain, pswapped>>))
         /\ \A a \in Fs : RAggMulti(<<<<Comp>>, <<swapped>>>>, a) = AggMulti(<<<<Plain>>, <<pswapped>>>>, P(a))
=============================================================================
