-------------------------------- MODULE HdfMC -------------------------------
(* Two processes; two grids over the same global box, cut in different ways, with     *)
(* ghost cells; two files.                                                            *)
EXTENDS Hdf
CONSTANT MaxLen
VARIABLES S, hist
vars == <<S, hist>>
Part(a, b, m, n) == [llo |-> <<a>>, lhi |-> <<b>>, mlo |-> <<m>>, mhi |-> <<n>>]
G1 == [ty |-> "int", glo |-> <<-1>>, ghi |-> <<2>>, parts |-> << Part(-1, 0, -2, 1), Part(1, 2, 0, 3) >>]
G2 == [ty |-> "int", glo |-> <<-1>>, ghi |-> <<2>>, parts |-> << Part(-1, -1, -1, -1), Part(0, 2, -1, 2) >>]
C == [np |-> 2, grids |-> <<G1, G2>>, files |-> {"a", "b"}, no |-> 1, ni |-> 1]
Content(g, k) == [r \in 1..2 |-> [i \in 1..(C.grids[g].parts[r].mhi[1] - C.grids[g].parts[r].mlo[1] + 1) |-> 100 * k + 10 * r + i]]
Closed(f) == S.outs[1].f # f
Events ==
  { [op |-> "fill", g |-> g, cells |-> Content(g, g)] : g \in 1..2 } \cup
  { [op |-> "oopen", s |-> 1, f |-> f, fresh |-> FALSE] : f \in {"a", "b"} } \cup { [op |-> "oclose", s |-> 1] } \cup
  { [op |-> "oname", s |-> 1, b |-> "x"] } \cup { [op |-> "owrite", s |-> 1, g |-> g] : g \in 1..2 } \cup
  { [op |-> "iopen", s |-> 1, f |-> f, fresh |-> FALSE] : f \in {"a", "b"} } \cup { [op |-> "iname", s |-> 1, b |-> "x"] } \cup
  { [op |-> "iclose", s |-> 1] } \cup { [op |-> "iread", s |-> 1, g |-> g] : g \in 1..2 }
Enabled(e) ==
  CASE e.op = "oopen" -> S.ins[1].f # e.f
    [] e.op = "owrite" -> S.outs[1].f # "" /\ ~HasSet(S.files[S.outs[1].f], NextName(S.outs[1])) /\ S.cells[e.g][1] # <<>>
    [] e.op = "iopen" -> Closed(e.f) /\ S.files[e.f].there
    [] e.op = "iread" -> S.ins[1].f # "" /\ HasSet(S.files[S.ins[1].f], NextName(S.ins[1])) /\ S.cells[e.g][1] # <<>>
    [] e.op = "oclose" -> S.outs[1].f # "" [] e.op = "iclose" -> S.ins[1].f # ""
    [] OTHER -> TRUE
Init == S = Fresh(C) /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E e \in Events : Enabled(e) /\ S' = Did(C, S, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

\* a dataset holds at each place what the process responsible for it had there; no cell is missing; names are different
Complete == \A f \in C.files : \A i \in 1..Len(S.files[f].sets) : LET d == S.files[f].sets[i] IN
              Len(d.cells) = 4 /\ \A k \in 1..4 : d.cells[k] # Unset
Distinct == \A f \in C.files : \A i, j \in 1..Len(S.files[f].sets) : i # j => S.files[f].sets[i].name # S.files[f].sets[j].name
\* after reading, every process has the dataset's values in its part, whoever wrote them and however the grid was cut then
Last == hist[Len(hist)]
ReadBack == (Len(hist) > 0 /\ Last.op = "iread") =>
              LET g == Last.g
                  t == S.ins[1]
                  n == IF t.count = 1 /\ HasSet(S.files[t.f], t.block) THEN t.block ELSE t.block \o ToString(t.count - 1)
              IN \E d \in {S.files[t.f].sets[i] : i \in 1..Len(S.files[t.f].sets)} : Whole(C.grids[g], S.cells[g], {1, 2}) = d.cells
=============================================================================
