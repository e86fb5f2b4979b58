---------------------------- MODULE SharedDataGen ---------------------------
EXTENDS SharedDataMC, Json, TLC
Emit == D # <<>> => PrintT("HIST" \o ToJson([T |-> T, D |-> D]))
=============================================================================
