------------------------------- MODULE ExprGen ------------------------------
(* Prints every expression that the machine of ExprMC accepts, for replay. *)
EXTENDS ExprMC, Json
Emit == Complete => PrintT("HIST" \o ToJson(ts))
=============================================================================
