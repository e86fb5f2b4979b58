------------------------------ MODULE Subdivision ------------------------------
(* A global index box distributed over processes. Every process owns a tile      *)
(* (its inner box) and holds it together with delta layers of ghost cells on     *)
(* every side. All coordinates are periodic in the global box.                   *)
(*   layout.procs[p]  = [lo, hi (local box), ilo, ihi (tile)]                    *)
(*   cells[p]         = the values of the local box, in row-major order          *)
EXTENDS Box, TLC

VARIABLES layout, cells
svars == <<layout, cells>>
SInit == layout = <<>> /\ cells = <<>>

Procs == layout.procs
NP == Len(layout.procs)
Dims == 1..Len(layout.glo)
N(d) == layout.ghi[d] - layout.glo[d] + 1

(* ------------------------------- the decomposition --------------------------- *)
LocalBox(L) ==
  \A p \in 1..Len(L.procs) : \A d \in 1..Len(L.glo) :
     /\ L.procs[p].lo[d] = L.procs[p].ilo[d] - L.delta
     /\ L.procs[p].hi[d] = L.procs[p].ihi[d] + L.delta
Tiling(L) ==
  /\ \A p \in 1..Len(L.procs) : /\ NonEmpty(L.procs[p].ilo, L.procs[p].ihi)
                                /\ SubBox(L.procs[p].ilo, L.procs[p].ihi, L.glo, L.ghi)
  /\ \A p, q \in 1..Len(L.procs) :
        p # q => ~Intersects(L.procs[p].ilo, L.procs[p].ihi, L.procs[q].ilo, L.procs[q].ihi)
  /\ Sum([p \in 1..Len(L.procs) |-> CellCount(L.procs[p].ilo, L.procs[p].ihi)]) = CellCount(L.glo, L.ghi)
(* tiles line up along every dimension, so that every process has one neighbour per side *)
SameColumn(L, p, q, d) ==
  \A e \in 1..Len(L.glo) : e # d => /\ L.procs[p].ilo[e] = L.procs[q].ilo[e]
                                    /\ L.procs[p].ihi[e] = L.procs[q].ihi[e]
WrapIn(L, x, d) == L.glo[d] + ((x - L.glo[d]) % (L.ghi[d] - L.glo[d] + 1))
IsNbr(L, p, q, d, x) ==
  /\ SameColumn(L, p, q, d)
  /\ L.procs[q].ilo[d] <= WrapIn(L, x, d) /\ WrapIn(L, x, d) <= L.procs[q].ihi[d]
Cartesian(L) ==
  \A p \in 1..Len(L.procs) : \A d \in 1..Len(L.glo) :
     /\ \E q \in 1..Len(L.procs) : IsNbr(L, p, q, d, L.procs[p].ilo[d] - 1)
     /\ \E q \in 1..Len(L.procs) : IsNbr(L, p, q, d, L.procs[p].ihi[d] + 1)
(* along a dimension no two tiles differ by more than two cells *)
Balanced(L) ==
  \A p, q \in 1..Len(L.procs) : \A d \in 1..Len(L.glo) :
     (L.procs[p].ihi[d] - L.procs[p].ilo[d]) - (L.procs[q].ihi[d] - L.procs[q].ilo[d]) <= 2
Decomposition(L) == LocalBox(L) /\ Tiling(L) /\ Cartesian(L) /\ Balanced(L)

(* what every process reports about itself *)
Identity(L) ==
  /\ { L.procs[p].num : p \in 1..Len(L.procs) } = 0..(Len(L.procs) - 1)
  /\ Cardinality({ L.procs[p].uid : p \in 1..Len(L.procs) }) = Len(L.procs)
  /\ \A p \in 1..Len(L.procs) : /\ L.procs[p].cnt = Len(L.procs)
                                /\ L.procs[p].master = (L.procs[p].num = 0)
                                /\ L.procs[p].delta = L.delta
                                /\ L.procs[p].glo = L.glo /\ L.procs[p].ghi = L.ghi
Edges(L) ==
  \A p \in 1..Len(L.procs) : \A d \in 1..Len(L.glo) :
     /\ L.procs[p].bl[d] = (L.procs[p].ilo[d] = L.glo[d])
     /\ L.procs[p].bh[d] = (L.procs[p].ihi[d] = L.ghi[d])
(* local physical extent: the global extent starts at plo, every cell is dx wide *)
Extents(L) ==
  \A p \in 1..Len(L.procs) : \A d \in 1..Len(L.glo) :
     /\ L.procs[p].elo[d] = L.plo[d] + L.dx[d] * (L.procs[p].ilo[d] - L.glo[d])
     /\ L.procs[p].ehi[d] = L.plo[d] + L.dx[d] * (L.procs[p].ihi[d] - L.glo[d] + 1)

(* ------------------------------ ghost exchange -------------------------------- *)
Wrap(x, d) == WrapIn(layout, x, d)
Lower(p, d) == CHOOSE q \in 1..NP : IsNbr(layout, p, q, d, Procs[p].ilo[d] - 1)
Upper(p, d) == CHOOSE q \in 1..NP : IsNbr(layout, p, q, d, Procs[p].ihi[d] + 1)
At(C, p, pos) == C[p][COffset(pos, Procs[p].lo, Procs[p].hi) + 1]
Width(p, d) == Procs[p].ihi[d] - Procs[p].ilo[d] + 1
MapCells(Op(_, _, _)) ==       \* Op(p, position, row-major number)
  [p \in 1..NP |-> [k \in 1..CellCount(Procs[p].lo, Procs[p].hi) |->
      Op(p, CPoint(k - 1, Procs[p].lo, Procs[p].hi), k)]]
Numbers == [p \in 1..NP |-> CellCount(Procs[p].lo, Procs[p].hi)]

WideEnough(d, w) == \A p \in 1..NP : Width(p, d) >= w

ExchangeDim(C, d) ==
  LET lw == [p \in 1..NP |-> Lower(p, d)]
      up == [p \in 1..NP |-> Upper(p, d)]
  IN MapCells(LAMBDA p, pos, k :
       IF pos[d] < Procs[p].ilo[d] THEN At(C, lw[p], [pos EXCEPT ![d] = Wrap(@, d)])
       ELSE IF pos[d] > Procs[p].ihi[d] THEN At(C, up[p], [pos EXCEPT ![d] = Wrap(@, d)])
       ELSE C[p][k])
RECURSIVE ExchangeFrom(_, _)
ExchangeFrom(C, d) == IF d > Len(layout.glo) THEN C ELSE ExchangeFrom(ExchangeDim(C, d), d + 1)
ExchangeAll(C) == ExchangeFrom(C, 1)

(* the guarantee itself: every cell shows the owner's value at its periodic image *)
Owner(pos) == CHOOSE q \in 1..NP : Inside(pos, Procs[q].ilo, Procs[q].ihi)
PeriodicImage(C, C2) ==
  \A p \in 1..NP : \A k \in 1..CellCount(Procs[p].lo, Procs[p].hi) :
     LET pos == CPoint(k - 1, Procs[p].lo, Procs[p].hi)
         img == [d \in 1..Len(layout.glo) |-> Wrap(pos[d], d)]
     IN C2[p][k] = At(C, Owner(img), img)

(* -------------------------------- accumulation -------------------------------- *)
(* needs tiles at least twice as wide as the ghost layer, so that source layers   *)
(* of opposite sides do not overlap                                               *)
AccumulateDim(C, d) ==
  LET lw == [p \in 1..NP |-> Lower(p, d)]
      up == [p \in 1..NP |-> Upper(p, d)]
      g == layout.delta
  IN MapCells(LAMBDA p, pos, k :
       IF pos[d] < Procs[p].ilo[d] THEN C[p][k] + At(C, lw[p], [pos EXCEPT ![d] = Wrap(@, d)])
       ELSE IF pos[d] > Procs[p].ihi[d] THEN C[p][k] + At(C, up[p], [pos EXCEPT ![d] = Wrap(@, d)])
       ELSE IF pos[d] < Procs[p].ilo[d] + g     \* also the upper ghost of the lower neighbour
       THEN C[p][k] + At(C, lw[p], [pos EXCEPT ![d] = Procs[lw[p]].ihi[d] + 1 + (pos[d] - Procs[p].ilo[d])])
       ELSE IF pos[d] > Procs[p].ihi[d] - g     \* also the lower ghost of the upper neighbour
       THEN C[p][k] + At(C, up[p], [pos EXCEPT ![d] = Procs[up[p]].ilo[d] - 1 - (Procs[p].ihi[d] - pos[d])])
       ELSE C[p][k])
RECURSIVE AccumulateFrom(_, _)
AccumulateFrom(C, d) == IF d > Len(layout.glo) THEN C ELSE AccumulateFrom(AccumulateDim(C, d), d + 1)
AccumulateAll(C) == AccumulateFrom(C, 1)
(* the guarantees: what was scattered over ghost cells ends up in the tiles, once *)
InnerSum(C) ==
  Sum([p \in 1..NP |-> Sum([k \in 1..Len(C[p]) |->
      IF Inside(CPoint(k - 1, Procs[p].lo, Procs[p].hi), Procs[p].ilo, Procs[p].ihi) THEN C[p][k] ELSE 0])])
TotalSum(C) == Sum([p \in 1..NP |-> Sum(C[p])])
Conserves(C, C2) == InnerSum(C2) = TotalSum(C)

(* ----------------------------- events of the code ------------------------------ *)
Init1(e) == LET L == [glo |-> e.glo, ghi |-> e.ghi, delta |-> e.delta, plo |-> e.plo, dx |-> e.dx, procs |-> e.procs]
            IN /\ Decomposition(L) /\ Identity(L) /\ Edges(L) /\ Extents(L)
               /\ layout' = L /\ cells' = <<>>
Again(e) == /\ \A p \in 1..NP : \E q \in 1..NP : /\ e.procs[p].uid = Procs[q].uid
                                                 /\ e.procs[p].ilo = Procs[q].ilo /\ e.procs[p].ihi = Procs[q].ihi
            /\ UNCHANGED svars
Shape(C) == Len(C) = NP /\ \A p \in 1..NP : Len(C[p]) = CellCount(Procs[p].lo, Procs[p].hi)
Fill(e) == Shape(e.cells) /\ cells' = e.cells /\ UNCHANGED layout
Exch(e) == /\ Shape(e.cells)
           /\ IF e.dim = 0 THEN /\ e.cells = ExchangeAll(cells) /\ PeriodicImage(cells, e.cells)
              ELSE e.cells = ExchangeDim(cells, e.dim)
           /\ cells' = e.cells /\ UNCHANGED layout
Accu(e) == /\ Shape(e.cells)
           /\ IF e.dim = 0
              THEN (\A d \in Dims : WideEnough(d, 2 * layout.delta)) =>
                      /\ e.cells = AccumulateAll(cells) /\ Conserves(cells, e.cells)
              ELSE WideEnough(e.dim, 2 * layout.delta) => e.cells = AccumulateDim(cells, e.dim)
           /\ cells' = e.cells /\ UNCHANGED layout

(* byte buffers travel to the next (orient > 0) or previous neighbour; e.in, e.out per process *)
Data(e) == /\ \A p \in 1..NP :
                LET from == IF e.orient > 0 THEN Lower(p, e.dim) ELSE Upper(p, e.dim)
                IN e.out[p] = e.in[from] /\ e.after[p] = e.in[p]
           /\ UNCHANGED svars
RECURSIVE Best(_, _, _)
Best(s, i, sgn) == IF i = Len(s) THEN s[i]
                   ELSE IF sgn * s[i] > sgn * Best(s, i + 1, sgn) THEN s[i] ELSE Best(s, i + 1, sgn)
AbsV(x) == IF x < 0 THEN -x ELSE x
Reduce(e) ==
  /\ \A p \in 1..NP :
       /\ e.res[p] = e.res[1]
       /\ CASE e.which = "sum" -> e.res[p] = Sum(e.vals)
            [] e.which = "max" -> e.res[p] = Best(e.vals, 1, 1)
            [] e.which = "min" -> e.res[p] = Best(e.vals, 1, -1)
            [] e.which = "avg" -> IF e.int THEN AbsV(e.res[p] * NP - Sum(e.vals)) < NP   \* any rounding
                                  ELSE e.res[p] * NP = Sum(e.vals)
  /\ UNCHANGED svars

(* any number of processes is spread over the dimensions without remainder *)
Factors(e) == /\ Len(e.f) = Len(e.w) /\ \A d \in 1..Len(e.f) : e.f[d] >= 1
              /\ Product(e.f) = e.number /\ UNCHANGED svars
SDo(e) == CASE e.op = "init"  -> Init1(e)
            [] e.op = "again" -> Again(e)
            [] e.op = "fill"  -> Fill(e)
            [] e.op = "exchange" -> Exch(e)
            [] e.op = "accumulate" -> Accu(e)
            [] e.op = "data" -> Data(e)
            [] e.op = "reduce" -> Reduce(e)
            [] e.op = "factors" -> Factors(e)
            [] OTHER -> FALSE
================================================================================
