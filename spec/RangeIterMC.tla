------------------------------ MODULE RangeIterMC ------------------------------
EXTENDS RangeIter
CONSTANTS MaxRank, Los, Exts
LosQ == {-2, 0, 1}
MInit == \E r \in 1..MaxRank : \E l0 \in [1..r -> Los] : \E e \in [1..r -> Exts] :
   lo = l0 /\ hi = [d \in 1..r |-> l0[d] + e[d] - 1] /\ cur = -1 /\ seen = {}
MNext == (cur = -1 /\ Start) \/ Step
MSpec == MInit /\ [][MNext]_rvars /\ WF_rvars(Step)
Ends == (cur = 0) ~> (cur = N)
================================================================================
