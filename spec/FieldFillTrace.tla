---------------------------- MODULE FieldFillTrace --------------------------
EXTENDS FieldFill, Json, IOUtils
VARIABLES h, l, S
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
C == Hist[h].conf
\* an observed cell: <<n, e, millionths>>, e = -1 when n * 2^-e is not exact
AgreesCell(v, o) == CASE v.t = "any" -> TRUE
                      [] v.t = "mic" -> Abs(o[3] - v.m) <= 1
                      [] v.t = "int" -> o[2] = 0 /\ o[1] = v.n
                      [] v.t = "flt" -> o[1] = v.n /\ o[2] = v.e
                      [] OTHER -> FALSE
SameCells(T, all) ==
  \A f \in 1..Len(C.fields) :
    LET D == T.data[f] IN
    /\ Len(all[f]) = Len(D)
    /\ \A q \in DOMAIN D : AgreesCell(D[q], all[f][q])
Failed(T) == \E f \in 1..Len(C.fields) : \E q \in DOMAIN T.data[f] : IsErr(T.data[f][q]) \/ May(T.data[f][q])
Do(e) == e.op # "CRASH" /\ LET T == Did(C, S, e) IN
           /\ ~Failed(T)
           /\ S' = T
           /\ (e.op \in {"fill", "run"} => SameCells(T, e.cells))
           /\ (e.op = "fill" => e.touched = 0)               \* the variables of other parameters are left alone
TInit == h \in 1..Len(Hist) /\ l = 0 /\ S = Fresh(C)
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l, S>>
TSpec == TInit /\ [][TNext]_<<h, l, S>>
=============================================================================
