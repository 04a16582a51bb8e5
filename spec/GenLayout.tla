------------------------------ MODULE GenLayout ------------------------------
(***************************************************************************)
(* Files made by the specification: for each description in the input (see *)
(* Layout!MakeFile), its bytes.                                            *)
(***************************************************************************)
EXTENDS Layout, Json, IOUtils

Inp == JsonDeserialize(IOEnv.LAYOUT_IN)

VARIABLE k
Init == k = 1
Next == /\ k <= Len(Inp)
        /\ LET bs == MakeFile(Inp[k])
           IN  /\ Assert(SamePairs(ReadFile(bs), Inp[k].blocks), "does not read back")
               /\ JsonSerialize(IOEnv.LAYOUT_OUT \o ToString(k) \o ".json", bs)
        /\ k' = k + 1
Spec == Init /\ [][Next]_k
=============================================================================
