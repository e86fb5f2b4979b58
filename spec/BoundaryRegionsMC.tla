--------------------------- MODULE BoundaryRegionsMC ----------------------------
EXTENDS BoundaryRegions
CONSTANTS MaxRank, MaxExt
MInit == \E r \in 1..MaxRank : \E l0 \in [1..r -> {-1, 0, 2}] : \E e \in [1..r -> 1..MaxExt] : \E dl \in 0..2 :
   lo = l0 /\ hi = [d \in 1..r |-> l0[d] + e[d] - 1] /\ delta = dl /\ cell = <<0>>
MSpec == MInit /\ [][UNCHANGED bvars]_bvars
================================================================================
