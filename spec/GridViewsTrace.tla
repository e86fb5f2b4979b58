----------------------------- MODULE GridViewsTrace -----------------------------
EXTENDS GridViews, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
TInit == VInit /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ VDo(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<gvars, h, l>>
TSpec == TInit /\ [][TNext]_<<gvars, h, l>>
================================================================================
