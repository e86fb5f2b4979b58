----------------------------- MODULE IndexCheckMC -------------------------------
EXTENDS IndexCheck
Boxes == { <<<<0>>, <<0>>>>, <<<<-1>>, <<1>>>>, <<<<0, -1>>, <<1, 1>>>>, <<<<2, 0>>, <<2, 1>>>> }
Around(b) == { p \in Points([d \in 1..Len(b[1]) |-> b[1][d] - 2], [d \in 1..Len(b[1]) |-> b[2][d] + 2]) : TRUE }
MInit == CInit({1, 2})
MNext == \/ \E g \in {1, 2} : \E b \in Boxes : SetBox(g, b[1], b[2])
         \/ \E g \in {1, 2} : box[g] # <<>> /\ \E p \in Around(box[g]) : Debug(g, p)
MSpec == MInit /\ [][MNext]_cvars
ProjectionOK == \A g \in {1, 2} : box[g] # <<>> => \A p \in Around(box[g]) :
   LET lo == box[g][1] hi == box[g][2] q == Nearest(p, lo, hi) IN
     /\ Inside(q, lo, hi) /\ Nearest(q, lo, hi) = q
     /\ (Inside(p, lo, hi) <=> q = p) /\ (Inside(p, lo, hi) <=> Wrong(p, lo, hi) = {})
     /\ \A c \in Points(lo, hi) : Dist(p, q) <= Dist(p, c)
FlagMeans == flag <=> off # <<>>
Sticky == [][flag => flag']_cvars
================================================================================
