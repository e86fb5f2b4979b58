---------------------------- MODULE IndexCheckTrace -----------------------------
EXTENDS IndexCheck, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
\* the record is kept per process, so a history starts from what the code reports
TInit == /\ h \in 1..Len(Hist) /\ l = 0
         /\ box = [g \in 1..3 |-> <<>>] /\ flag = Hist[h].flag0 /\ off = <<>>
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ CDo(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<cvars, h, l>>
TSpec == TInit /\ [][TNext]_<<cvars, h, l>>
================================================================================
