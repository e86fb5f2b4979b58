------------------------------ MODULE ArraysGen -----------------------------
(* All expression shapes up to two levels *)
EXTENDS ArraysMC, Json, TLC
VARIABLE shape
GInit == Init /\ x = 0 /\ y = 0 /\ z = 0 /\ lev = 0 /\ shape \in (L1({"Z"}) \cup L2({"Z"}) \cup L1({"I", "D"}) \cup L2({"I", "D"}))
GSpec == GInit /\ [][UNCHANGED <<lev, e, x, y, z, shape>>]_<<lev, e, x, y, z, shape>>
Emit == PrintT("HIST" \o ToJson(shape))
=============================================================================
