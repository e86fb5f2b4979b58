------------------------------ MODULE FieldFillGen --------------------------
EXTENDS FieldFillMC, Json, TLC
\* a history that ends with a fill, after at least one dependent or a fill that names its parameter
Emit == (Len(hist) = MaxLen /\ hist[MaxLen].op \in {"fill", "run"}) => PrintT("HIST" \o ToJson(hist))
=============================================================================
