------------------------------- MODULE GridLayout -------------------------------
(* Two grids over one index box, each with its own memory layout.  Cells are    *)
(* values attached to index points; the layout says where in the buffer the     *)
(* cell of an index point lives.  Every way of addressing a cell (call operator,*)
(* index array, index expression, plain access, iteration over the buffer)      *)
(* must address the same cell.                                                  *)
EXTENDS Box, TLC

VARIABLES lo, hi,     \* the box
          lay,        \* lay[g] \in {"c", "f", "any"}
          cell        \* cell[g]: values in row-major order of the points
lvars == <<lo, hi, lay, cell>>

N == CellCount(lo, hi)

Stride(layout, d) ==
  LET e == Extent(lo, hi) IN
  IF layout = "c" THEN Product(SubSeq(e, d + 1, Len(e))) ELSE Product(SubSeq(e, 1, d - 1))

Offset(layout, p) == IF layout = "c" THEN COffset(p, lo, hi) ELSE FOffset(p, lo, hi)
PointAt(layout, k) == IF layout = "c" THEN CPoint(k, lo, hi) ELSE FPoint(k, lo, hi)

LInit == /\ lo = <<0>> /\ hi = <<0>> /\ lay = <<"c", "c">> /\ cell = <<<<0>>, <<0>>>>

Make(l0, h0, ly) == /\ NonEmpty(l0, h0)
                    /\ lo' = l0 /\ hi' = h0 /\ lay' = ly
                    /\ cell' = [g \in 1..2 |-> [k \in 1..CellCount(l0, h0) |-> 0]]
Keep == UNCHANGED <<lo, hi, lay>>
WriteCell(g, p, v) == /\ Inside(p, lo, hi) /\ Keep
                      /\ cell' = [cell EXCEPT ![g][COffset(p, lo, hi) + 1] = v]
FillAll(g, v) == Keep /\ cell' = [cell EXCEPT ![g] = [k \in 1..N |-> v]]
AddGrid(g, s, sgn) == Keep /\ cell' = [cell EXCEPT ![g] = [k \in 1..N |-> @[k] + sgn * cell[s][k]]]

(* results the code reports *)
ReadOK(g, v) == Len(v) = N /\ \A k \in 1..N : v[k] = cell[g][k]
RawOK(g, v) == Len(v) = N /\ (lay[g] # "any" =>
                 \A k \in 1..N : v[k] = cell[g][COffset(PointAt(lay[g], k - 1), lo, hi) + 1])
(* off[k]: distance in memory of the k-th point (row-major) from the first point; st[d]: stride *)
Dot(a, b) == Sum([d \in 1..Len(a) |-> a[d] * b[d]])
LayoutOK(g, off, st) ==
  /\ Len(off) = N /\ Len(st) = Len(lo)
  /\ \A i, j \in 1..N : off[i] = off[j] => i = j
  /\ \A k \in 1..N : LET p == CPoint(k - 1, lo, hi) IN
        /\ off[k] = Dot(st, [d \in 1..Len(lo) |-> p[d] - lo[d]])
        /\ lay[g] # "any" => off[k] = Offset(lay[g], p)
  /\ lay[g] # "any" => /\ \A d \in 1..Len(lo) : st[d] = Stride(lay[g], d)

(* Grids with too many cells to list them all: only the cells that differ from a common value *)
(* are stored, cell[g] = [base, put] with put a function from row-major positions to values.   *)
VMake(l0, h0, ly) == /\ NonEmpty(l0, h0) /\ lo' = l0 /\ hi' = h0 /\ lay' = ly
                     /\ cell' = [g \in 1..2 |-> [base |-> 0, put |-> <<>>]]
VAt(c, k) == IF k \in DOMAIN c.put THEN c.put[k] ELSE c.base
VWrite(g, p, v) == /\ Inside(p, lo, hi) /\ Keep
                   /\ cell' = [cell EXCEPT ![g].put = (COffset(p, lo, hi) :> v) @@ @]
VFill(g, v) == Keep /\ cell' = [cell EXCEPT ![g] = [base |-> v, put |-> <<>>]]
VAdd(g, s, sgn) == /\ Keep
                   /\ cell' = [cell EXCEPT ![g] = [base |-> @.base + sgn * cell[s].base,
                         put |-> [k \in (DOMAIN @.put \cup DOMAIN cell[s].put) |-> VAt(@, k) + sgn * VAt(cell[s], k)]]]
VReadOK(g, a) == \A i \in 1..Len(a.pts) :
  /\ a.res[i] = VAt(cell[g], COffset(a.pts[i], lo, hi))
  /\ a.off[i] = Dot(a.st, [d \in 1..Len(lo) |-> a.pts[i][d] - lo[d]])
  /\ lay[g] # "any" => /\ a.off[i] = Offset(lay[g], a.pts[i])
                       /\ a.st = [d \in 1..Len(lo) |-> Stride(lay[g], d)]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumOver(f, S \ {k})
(* the cells that differ from zero, seen by a walk over the index box or over the memory *)
VAllOK(g, a) == /\ a.size = N /\ a.count = N /\ a.dims = Extent(lo, hi)
                /\ a.sum = cell[g].base * (N - Cardinality(DOMAIN cell[g].put)) + SumOver(cell[g].put, DOMAIN cell[g].put)

LDo(a) ==
  CASE a.op = "make"   -> Make(a.lo, a.hi, a.lay)
    [] a.op = "write"  -> WriteCell(a.g, a.p, a.v)
    [] a.op = "fill"   -> FillAll(a.g, a.v)
    [] a.op = "add"    -> AddGrid(a.g, a.s, 1)
    [] a.op = "sub"    -> AddGrid(a.g, a.s, -1)
    [] a.op = "read"   -> ReadOK(a.g, a.res) /\ UNCHANGED lvars
    [] a.op = "raw"    -> RawOK(a.g, a.res) /\ UNCHANGED lvars
    [] a.op = "vast"   -> VMake(a.lo, a.hi, a.lay)
    [] a.op = "vwrite" -> VWrite(a.g, a.p, a.v)
    [] a.op = "vfill"  -> VFill(a.g, a.v)
    [] a.op = "vadd"   -> VAdd(a.g, a.s, 1)
    [] a.op = "vsub"   -> VAdd(a.g, a.s, -1)
    [] a.op = "vread"  -> VReadOK(a.g, a) /\ UNCHANGED lvars
    [] a.op = "vall"   -> VAllOK(a.g, a) /\ UNCHANGED lvars
    [] a.op = "layout" -> /\ LayoutOK(a.g, a.off, a.st) /\ a.glo = lo /\ a.ghi = hi
                          /\ a.dims = Extent(lo, hi) /\ a.size = N
                          /\ UNCHANGED lvars
    [] OTHER           -> FALSE

--------------------------------------------------------------------------------
(* what makes the layouts trustworthy: both orders are bijections onto 0..N-1,  *)
(* their inverses are right, and strides agree with them                        *)
Bijective == \A o \in {"c", "f"} :
   /\ { Offset(o, p) : p \in Points(lo, hi) } = 0..(N - 1)
   /\ Cardinality(Points(lo, hi)) = N
   /\ \A k \in 0..(N - 1) : Offset(o, PointAt(o, k)) = k /\ Inside(PointAt(o, k), lo, hi)
   /\ \A p \in Points(lo, hi) :
        Offset(o, p) = Dot([d \in 1..Len(lo) |-> Stride(o, d)], [d \in 1..Len(lo) |-> p[d] - lo[d]])
================================================================================
