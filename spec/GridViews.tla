------------------------------- MODULE GridViews --------------------------------
(* A grid and views onto it: sub-grid views (a range of the grid, writable) and  *)
(* transforming views (the whole grid, each value mapped by x -> m*x + c, read   *)
(* only).  A view has no cells of its own.                                       *)
EXTENDS Box
CONSTANT Views
VARIABLES lo, hi, cell, view
gvars == <<lo, hi, cell, view>>
NoView == [kind |-> "none"]
VInit == lo = <<0>> /\ hi = <<0>> /\ cell = <<0>> /\ view = [v \in Views |-> NoView]

At(p) == cell[COffset(p, lo, hi) + 1]
VLo(v) == IF v.kind = "sub" THEN v.lo ELSE lo
VHi(v) == IF v.kind = "sub" THEN v.hi ELSE hi
Valid(v) == v.kind # "none" /\ (v.kind = "sub" => SubBox(v.lo, v.hi, lo, hi))
Shows(v, p) == IF v.kind = "sub" THEN At(p) ELSE v.m * At(p) + v.c
All(v) == [k \in 1..CellCount(VLo(v), VHi(v)) |-> Shows(v, CPoint(k - 1, VLo(v), VHi(v)))]

Make(l0, h0) == /\ lo' = l0 /\ hi' = h0 /\ cell' = [k \in 1..CellCount(l0, h0) |-> k] /\ UNCHANGED view
Write(p, x) == /\ Inside(p, lo, hi) /\ cell' = [cell EXCEPT ![COffset(p, lo, hi) + 1] = x] /\ UNCHANGED <<lo, hi, view>>
Sub(v, l0, h0) == /\ SubBox(l0, h0, lo, hi) /\ UNCHANGED <<lo, hi, cell>>
                  /\ view' = [view EXCEPT ![v] = [kind |-> "sub", lo |-> l0, hi |-> h0]]
Trans(v, m, c) == UNCHANGED <<lo, hi, cell>> /\ view' = [view EXCEPT ![v] = [kind |-> "trans", m |-> m, c |-> c]]
Poke(v, p, x) == view[v].kind = "sub" /\ Inside(p, VLo(view[v]), VHi(view[v])) /\ Write(p, x)
AddTo(v, y) ==   \* y: values for the cells of the view, in row-major order
  LET w == view[v] IN
  /\ w.kind = "sub" /\ Valid(w) /\ UNCHANGED <<lo, hi, view>>
  /\ cell' = [k \in 1..Len(cell) |-> LET p == CPoint(k - 1, lo, hi) IN
                IF Inside(p, w.lo, w.hi) THEN cell[k] + y[COffset(p, w.lo, w.hi) + 1] ELSE cell[k]]
FillV(v, x) == LET w == view[v] IN
  /\ w.kind = "sub" /\ Valid(w) /\ UNCHANGED <<lo, hi, view>>
  /\ cell' = [k \in 1..Len(cell) |-> IF Inside(CPoint(k - 1, lo, hi), w.lo, w.hi) THEN x ELSE cell[k]]

Neg(y) == [k \in 1..Len(y) |-> -y[k]]
VDo(a) ==
  CASE a.op = "make" -> Make(a.lo, a.hi)
    [] a.op = "write" -> Write(a.p, a.x)
    [] a.op \in {"sub", "rsub"} -> Sub(a.v, a.lo, a.hi)
    [] a.op = "trans" -> Trans(a.v, a.m, a.c)
    [] a.op = "poke" -> Poke(a.v, a.p, a.x)
    [] a.op = "addv" -> AddTo(a.v, a.y)
    [] a.op = "subv" -> AddTo(a.v, Neg(a.y))
    [] a.op = "fillv" -> FillV(a.v, a.x)
    [] a.op = "read" -> Valid(view[a.v]) /\ a.vals = All(view[a.v]) /\ UNCHANGED gvars
    [] a.op = "bounds" -> /\ a.vlo = VLo(view[a.v]) /\ a.vhi = VHi(view[a.v])
                          /\ a.dims = Extent(VLo(view[a.v]), VHi(view[a.v])) /\ UNCHANGED gvars
    [] a.op = "base" -> a.vals = cell /\ UNCHANGED gvars
    [] OTHER -> FALSE
--------------------------------------------------------------------------------
(* writes through a view change only cells of its range *)
OnlyInside == [][\A v \in Views, p \in Points(lo, hi), x \in 0..1 :
   Poke(v, p, x) => \A q \in Points(lo, hi) : q # p => cell'[COffset(q, lo, hi) + 1] = cell[COffset(q, lo, hi) + 1]]_gvars
================================================================================
