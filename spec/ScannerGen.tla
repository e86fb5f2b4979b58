------------------------------ MODULE ScannerGen ----------------------------
(* Prints every short text over the model's alphabet, for replay. *)
EXTENDS ScannerMC, Json, TLC
GInit == Init /\ size = CHOOSE n \in Buffers : TRUE
GSpec == GInit /\ [][FALSE]_vars
Emit == PrintT("HIST" \o ToJson(cs))
=============================================================================
