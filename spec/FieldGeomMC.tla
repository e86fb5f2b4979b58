----------------------------- MODULE FieldGeomMC --------------------------------
EXTENDS FieldGeom
CONSTANT MaxN
Geos == { [lo |-> <<l0>>, hi |-> <<l0 + n - 1>>, plo |-> <<p>>, w |-> <<w>>, st |-> <<s>>, gh |-> gh] :
           l0 \in {-2, 0, 3}, n \in 1..MaxN, p \in {-5, 0, 7}, w \in {2, 4, 6}, s \in BOOLEAN, gh \in {0, 1, 2} }
MInit == geo = [f \in {1} |-> Undef]
MNext == \E g \in Geos : Create(1, g)
MSpec == MInit /\ [][MNext]_geo
G == geo[1]
Idx == (G.lo[1] - G.gh)..(G.hi[1] + G.gh)
LowMapsToLow == Def(1) => Position(G, 1, G.lo[1]) = G.plo[1] + (IF G.st[1] THEN G.w[1] \div 2 ELSE 0)
RoundTrip == Def(1) => \A i \in Idx : CellOf(G, 1, Position(G, 1, i)) = i /\ RestOf(G, 1, Position(G, 1, i)) = 0
Nearest == Def(1) => \A x \in Position(G, 1, G.lo[1] - G.gh)..Position(G, 1, G.hi[1] + G.gh) :
    LET i == CellOf(G, 1, x) IN /\ Position(G, 1, i) <= x /\ x < Position(G, 1, i + 1)
                                /\ Position(G, 1, i) + RestOf(G, 1, x) = x
PeriodEnds == Def(1) => Position(G, 1, G.hi[1] + 1) - Position(G, 1, G.lo[1]) = (G.hi[1] - G.lo[1] + 1) * G.w[1]
================================================================================
