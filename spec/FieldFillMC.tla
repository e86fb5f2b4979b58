------------------------------ MODULE FieldFillMC ---------------------------
(* Two coordinates x and s of two one dimensional arrays, parameters F = 2*x + s and  *)
(* G = F*x, three fields, two updaters, two fillers.                                  *)
EXTENDS FieldFill
CONSTANT MaxLen
VARIABLES S, hist, last          \* last[f]: parameter, array and the other coordinate at the last fill of f
vars == <<S, hist, last>>
Id(x) == [k |-> "id", s |-> "v", p |-> x]
Op(s) == [k |-> "op", s |-> s]
F1 == [lo |-> <<0>>, hi |-> <<1>>, plo |-> <<3>>, w |-> <<2>>, e |-> <<1>>, st |-> <<TRUE>>, gh |-> 1, ty |-> "flt", start |-> IntV(0)]
F2 == [lo |-> <<-1>>, hi |-> <<0>>, plo |-> <<0>>, w |-> <<4>>, e |-> <<0>>, st |-> <<FALSE>>, gh |-> 0, ty |-> "flt", start |-> IntV(0)]
C == [nc |-> <<1, 1>>, nf |-> 2, ups |-> <<1, 2>>, fields |-> <<F1, F2>>,
      defs |-> << [ty |-> "flt", ts |-> <<[k |-> "int", n |-> 2], Op("*"), Id(1), Op("+"), Id(2)>>],
                  [ty |-> "flt", ts |-> <<Id(3), Op("*"), Id(1)>>] >>]
NF == 1..2
Events ==
  [op : {"put"}, a : 1..2, d : {1}, v : {FltV(1, 1), FltV(3, 0)}] \cup
  [op : {"depend"}, u : 1..2, p : 1..2] \cup
  [op : {"fill"}, own : BOOLEAN, f : NF, p : 1..2, u : 1..2] \cup
  [op : {"set"}, n : 1..2, u : 1..2, items : { <<[f |-> f, p |-> p]>> : f \in NF, p \in 1..2 } \cup { <<[f |-> 1, p |-> 2], [f |-> 2, p |-> 1]>> }] \cup
  [op : {"clear"}, n : {1}] \cup [op : {"run"}, n : 1..2]

Init == S = Fresh(C) /\ hist = <<>> /\ last = [f \in NF |-> <<>>]
\* the list of fills an event stands for
Todo(e) == CASE e.op = "fill" -> <<[f |-> e.f, p |-> e.p, u |-> e.u]>> [] e.op = "run" -> S.fillers[e.n] [] OTHER -> <<>>
RECURSIVE Latest(_, _, _, _)
Latest(todo, i, mem, L) ==
  IF i > Len(todo) THEN L
  ELSE Latest(todo, i + 1, [mem EXCEPT ![todo[i].u] = AnyV("flt")], [L EXCEPT ![todo[i].f] = [p |-> todo[i].p, u |-> todo[i].u, other |-> mem[3 - todo[i].u]]])
Next == /\ Len(hist) < MaxLen
        /\ \E e \in Events :
             /\ S' = Did(C, S, e)
             /\ last' = Latest(Todo(e), 1, S.mem, last)
             /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

\* Every cell of a field that has been filled holds the formula's value at the cell's own position, or nothing is known about it,
\* which is the case only when the other coordinate is unknown or the updater was not told about the parameter
Fof(x, s) == AddF(MulF(FltV(2, 0), x), s)
OwnPosition == \A f \in NF :
  IF last[f] = <<>> THEN \A q \in DOMAIN S.data[f] : S.data[f][q] = IntV(0)
  ELSE \A q \in DOMAIN S.data[f] :
         LET here == FltV(Pos(C.fields[f], 1, CellNo(C.fields[f], q)[1]), C.fields[f].e[1])
             x == IF last[f].u = 1 THEN here ELSE last[f].other
             s == IF last[f].u = 2 THEN here ELSE last[f].other
             v == S.data[f][q]
         IN \/ v.t = "any"
            \/ /\ last[f].other.t # "any"
               /\ v = (IF last[f].p = 1 THEN Fof(x, s) ELSE MulF(Fof(x, s), x))
Together == \A f \in NF : (\E q \in DOMAIN S.data[f] : S.data[f][q].t = "any") => (\A q \in DOMAIN S.data[f] : S.data[f][q].t = "any")
GhostsToo == Len(S.data[1]) = 4 /\ Len(S.data[2]) = 2
=============================================================================
