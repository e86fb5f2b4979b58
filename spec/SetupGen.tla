------------------------------ MODULE SetupGen ------------------------------
(* Prints every setup file of SetupMC, for replay into the real parser. *)
EXTENDS SetupMC, Json
Emit == hist # <<>> => PrintT("HIST" \o ToJson(hist))
=============================================================================
