------------------------------ MODULE FieldGeom ---------------------------------
(* The geometry of fields.  A field covers an inner index box plus ghost cells,  *)
(* and maps indices to physical positions.  Positions are integers here: each    *)
(* dimension has its own unit, in which a cell is w units wide (w even).         *)
EXTENDS Box
VARIABLE geo     \* geo[f] = [lo, hi, plo, w, st, gh] or <<>>
Undef == [lo |-> <<>>]
Def(f) == geo[f].lo # <<>>

Position(g, d, i) == g.plo[d] + (i - g.lo[d]) * g.w[d] + (IF g.st[d] THEN g.w[d] \div 2 ELSE 0)
\* the cell at or below a position, and what is left over, in units
Shifted(g, d, x) == x - g.plo[d] - (IF g.st[d] THEN g.w[d] \div 2 ELSE 0)
CellOf(g, d, x) == g.lo[d] + (Shifted(g, d, x) \div g.w[d])
RestOf(g, d, x) == Shifted(g, d, x) % g.w[d]

Geometry(a) == [lo |-> a.lo, hi |-> a.hi, plo |-> a.plo, w |-> a.w, st |-> a.st, gh |-> a.gh]
Create(f, a) == geo' = [geo EXCEPT ![f] = Geometry(a)]
Become(f, s) == Def(s) /\ geo' = [geo EXCEPT ![f] = geo[s]]

Abs(x) == IF x < 0 THEN -x ELSE x
BoundsOK(g, a) ==
  /\ a.ilo = g.lo /\ a.ihi = g.hi /\ a.rlo = g.lo /\ a.rhi = g.hi
  /\ a.glo = [d \in 1..Len(g.lo) |-> g.lo[d] - g.gh] /\ a.ghi = [d \in 1..Len(g.lo) |-> g.hi[d] + g.gh]
  /\ a.dims = [d \in 1..Len(g.lo) |-> g.hi[d] - g.lo[d] + 1 + 2 * g.gh]
  /\ a.size = CellCount(a.glo, a.ghi)
  /\ a.st = g.st
  /\ a.plo = g.plo /\ a.phi = [d \in 1..Len(g.lo) |-> g.plo[d] + (g.hi[d] - g.lo[d] + 1) * g.w[d]]

FDo(a) ==
  CASE a.op \in {"make", "resize"} -> Create(a.f, a)
    [] a.op \in {"copy", "assign"} -> Become(a.f, a.s)
    [] a.op = "bounds" -> Def(a.f) /\ BoundsOK(geo[a.f], a) /\ UNCHANGED geo
    [] a.op = "position" -> Def(a.f) /\ a.x = Position(geo[a.f], a.d, a.i) /\ UNCHANGED geo
    \* the fraction is logged in 1/1024 of a cell, rounded
    [] a.op = "find" -> LET g == geo[a.f] IN
          /\ Def(a.f) /\ a.i = CellOf(g, a.d, a.x) /\ a.i2 = a.i
          /\ Abs(a.frac * g.w[a.d] - 1024 * RestOf(g, a.d, a.x)) <= g.w[a.d]
          /\ UNCHANGED geo
    [] OTHER -> FALSE
================================================================================
