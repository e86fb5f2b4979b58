----------------------------- MODULE LiteratureGen --------------------------
EXTENDS LiteratureMC, Json, TLC
Emit == Len(hist) = MaxLen => PrintT("HIST" \o ToJson(hist))
=============================================================================
