------------------------------ MODULE GridLayoutMC ------------------------------
EXTENDS GridLayout
CONSTANTS MaxRank, Los, Exts
LosQuick == {-1, 0, 2}
LosThorough == {-2, -1, 0, 3}
BoxInit == \E r \in 1..MaxRank : \E l0 \in [1..r -> Los] : \E e \in [1..r -> Exts] :
   /\ lo = l0 /\ hi = [d \in 1..r |-> l0[d] + e[d] - 1]
   /\ lay = <<"c", "f">>
   /\ cell = [g \in 1..2 |-> [k \in 1..CellCount(lo, hi) |-> 0]]
\* a step of each kind, to exercise the operators on every box
Step == \/ \E g \in 1..2 : cell[g][1] < 2 /\ WriteCell(g, lo, 2)
        \/ \E g \in 1..2 : cell[g][1] = 2 /\ cell[3-g][N] < 3 /\ WriteCell(3-g, hi, 3)
        \/ cell[1][1] < 4 /\ AddGrid(1, 2, 1)
Shape == \A g \in 1..2 : Len(cell[g]) = N
BoxSpec == BoxInit /\ [][Step]_lvars
SmallVals == \A g \in 1..2 : \A k \in 1..N : cell[g][k] <= 6
================================================================================
