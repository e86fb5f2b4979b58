------------------------------- MODULE HdfTrace -----------------------------
EXTENDS Hdf, Json, IOUtils
VARIABLES h, l, S
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
RangeOf(s) == {s[i] : i \in 1..Len(s)}
C == [Hist[h].conf EXCEPT !.files = RangeOf(Hist[h].conf.files)]
\* sets are sequences in the record
Set(e) == CASE e.op \in {"oattr", "output"} -> [e EXCEPT !.attrs = RangeOf(e.attrs)]
            [] e.op \in {"oactive", "iactive"} -> [e EXCEPT !.who = RangeOf(e.who)]
            [] OTHER -> e
SameCells(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = Unset \/ a[i] = b[i]
SameSet(d, o) == d.ty = o.ty /\ d.dims = o.dims /\ SameCells(d.cells, o.cells) /\ d.attrs = RangeOf(o.attrs) /\ Cardinality(d.attrs) = Len(o.attrs)
Check(T, e) ==
  CASE e.op = "dump" -> /\ e.there = T.files[e.f].there
                        /\ (e.there => /\ Len(e.sets) = Len(T.files[e.f].sets)
                                       /\ \A i \in 1..Len(e.sets) : HasSet(T.files[e.f], e.sets[i].name) /\ SameSet(TheSet(T.files[e.f], e.sets[i].name), e.sets[i])
                                       /\ \A i \in 1..Len(e.sets) : \A j \in 1..Len(e.sets) : i # j => e.sets[i].name # e.sets[j].name)
    [] e.op \in {"iread", "input"} -> \A r \in 1..C.np : SameCells(T.cells[e.g][r], e.cells[r])
    [] e.op = "cells" -> \A r \in 1..C.np : SameCells(T.cells[e.g][r], e.cells[r])
    [] e.op = "good" -> \A r \in 1..C.np : /\ \A s \in 1..Len(e.o[r]) : e.o[r][s] = (T.outs[s].f # "" /\ r \in T.outs[s].active)
                                           /\ \A s \in 1..Len(e.i[r]) : e.i[r][s] = (T.ins[s].f # "" /\ r \in T.ins[s].active)
    [] OTHER -> TRUE
Do(e) == e.op # "CRASH" /\ LET T == Did(C, S, Set(e)) IN S' = T /\ Check(T, e)
TInit == h \in 1..Len(Hist) /\ l = 0 /\ S = Fresh(C)
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l, S>>
TSpec == TInit /\ [][TNext]_<<h, l, S>>
=============================================================================
