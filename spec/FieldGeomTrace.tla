---------------------------- MODULE FieldGeomTrace ------------------------------
EXTENDS FieldGeom, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
TInit == geo = [f \in 1..3 |-> Undef] /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ FDo(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<geo, h, l>>
TSpec == TInit /\ [][TNext]_<<geo, h, l>>
================================================================================
