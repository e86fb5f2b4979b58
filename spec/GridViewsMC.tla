------------------------------ MODULE GridViewsMC -------------------------------
EXTENDS GridViews
Boxes == { <<<<0>>, <<2>>>>, <<<<-1, 0>>, <<0, 1>>>> }
MInit == \E b \in Boxes : lo = b[1] /\ hi = b[2] /\ cell = [k \in 1..CellCount(b[1], b[2]) |-> 0] /\ view = [v \in Views |-> NoView]
SubBoxes == { b \in Points(lo, hi) \X Points(lo, hi) : NonEmpty(b[1], b[2]) }
MNext == \/ \E v \in Views : \E b \in SubBoxes : Sub(v, b[1], b[2])
         \/ \E v \in Views : Trans(v, 2, 1)
         \/ \E p \in Points(lo, hi), x \in 0..1 : Write(p, x)
         \/ \E v \in Views, p \in Points(lo, hi), x \in 0..1 : Poke(v, p, x)
         \/ \E v \in Views : FillV(v, 1)
MSpec == MInit /\ [][MNext]_gvars
\* two sub views agree wherever they overlap, and every transforming view is the map of the grid
Agree == \A v \in Views : view[v].kind # "none" =>
   /\ Valid(view[v])
   /\ \A p \in Points(VLo(view[v]), VHi(view[v])) :
        Shows(view[v], p) = IF view[v].kind = "sub" THEN At(p) ELSE view[v].m * At(p) + view[v].c
\* a step through one view shows in another exactly if the cell is in both
Seen == [][\A v \in Views : \A p \in Points(lo, hi), x \in 0..1 : Poke(v, p, x) =>
            \A w \in Views : view[w].kind = "sub" /\ Inside(p, view[w].lo, view[w].hi) => Shows(view[w], p)' = x]_gvars
================================================================================
