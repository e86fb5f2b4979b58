-------------------------- MODULE BoundaryRegionsTrace --------------------------
EXTENDS BoundaryRegions, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
TInit == BInit /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ BDo(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<bvars, h, l>>
TSpec == TInit /\ [][TNext]_<<bvars, h, l>>
================================================================================
