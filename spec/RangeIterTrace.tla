----------------------------- MODULE RangeIterTrace -----------------------------
EXTENDS RangeIter, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
TInit == RInit /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ RDo(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<rvars, h, l>>
TSpec == TInit /\ [][TNext]_<<rvars, h, l>>
================================================================================
