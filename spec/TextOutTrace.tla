----------------------------- MODULE TextOutTrace ---------------------------
EXTENDS TextOut, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
TInit == TInit0 /\ h \in 1..Len(Hist) /\ l = 0
\* after every statement the event shows both streams
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1]) /\ Ev[l + 1].streams = text'
         \/ l = Len(Ev) /\ UNCHANGED <<text, h, l>>
TSpec == TInit /\ [][TNext]_<<text, h, l>>
=============================================================================
