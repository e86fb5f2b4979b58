------------------------------- MODULE HdfGen -------------------------------
EXTENDS HdfMC, Json
Plain(e) == IF e.op = "fill" THEN [op |-> "fill", g |-> e.g] ELSE e
Emit == (Len(hist) = MaxLen /\ \E i \in 1..Len(hist) : hist[i].op = "owrite") => PrintT("HIST" \o ToJson([i \in 1..Len(hist) |-> Plain(hist[i])]))
=============================================================================
