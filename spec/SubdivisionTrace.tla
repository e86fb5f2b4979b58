--------------------------- MODULE SubdivisionTrace ---------------------------
EXTENDS Subdivision, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
TInit == SInit /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ SDo(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<svars, h, l>>
TSpec == TInit /\ [][TNext]_<<svars, h, l>>
================================================================================
