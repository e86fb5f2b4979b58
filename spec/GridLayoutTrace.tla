----------------------------- MODULE GridLayoutTrace ----------------------------
EXTENDS GridLayout, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
TInit == LInit /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ LDo(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<lvars, h, l>>
TSpec == TInit /\ [][TNext]_<<lvars, h, l>>
================================================================================
