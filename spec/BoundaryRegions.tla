---------------------------- MODULE BoundaryRegions -----------------------------
(* The ghost, source, boundary and inner regions of a box with a boundary of     *)
(* width delta, and views of a grid restricted to them.                          *)
EXTENDS Box
VARIABLES lo, hi, delta, cell
bvars == <<lo, hi, delta, cell>>
BInit == lo = <<0>> /\ hi = <<0>> /\ delta = 0 /\ cell = <<0>>

Slab(d, a, b) == << [lo EXCEPT ![d] = a], [hi EXCEPT ![d] = b] >>
Ghost(d, side) == IF side = "min" THEN Slab(d, lo[d], lo[d] + delta - 1) ELSE Slab(d, hi[d] - delta + 1, hi[d])
Source(d, side) == IF side = "min" THEN Slab(d, lo[d] + delta, lo[d] + 2 * delta - 1)
                                   ELSE Slab(d, hi[d] - 2 * delta + 1, hi[d] - delta)
\* a staggered field has one layer less on the lower side
Bound(d, side, st) == IF side = "min" THEN Slab(d, lo[d], lo[d] + delta - 1 - (IF st THEN 1 ELSE 0)) ELSE Ghost(d, side)
Inner == << [d \in 1..Len(lo) |-> lo[d] + delta], [d \in 1..Len(lo) |-> hi[d] - delta] >>

Make(a) == /\ lo' = a.lo /\ hi' = a.hi /\ delta' = a.delta
           /\ cell' = [k \in 1..CellCount(a.lo, a.hi) |-> k - 1]
RegionOK(reg, a) == a.rlo = reg[1] /\ a.rhi = reg[2]
ViewReg(a) == IF a.kind = "grid" THEN Ghost(a.d, a.side) ELSE Bound(a.d, a.side, a.st)
ViewOK(reg, a) == /\ a.vals = [k \in 1..CellCount(reg[1], reg[2]) |-> cell[COffset(CPoint(k - 1, reg[1], reg[2]), lo, hi) + 1]]
                  /\ (CellCount(reg[1], reg[2]) > 0 => RegionOK(reg, a))

BDo(a) ==
  CASE a.op = "make" -> Make(a)
    [] a.op = "outline" -> \* the regions of a box whose cells are not stored: extents of any size
         lo' = a.lo /\ hi' = a.hi /\ delta' = a.delta /\ cell' = <<>>
    [] a.op = "ghost" -> RegionOK(Ghost(a.d, a.side), a) /\ UNCHANGED bvars
    [] a.op = "source" -> RegionOK(Source(a.d, a.side), a) /\ UNCHANGED bvars
    [] a.op = "bound" -> RegionOK(Bound(a.d, a.side, a.st), a) /\ UNCHANGED bvars
    [] a.op = "inner" -> RegionOK(Inner, a) /\ UNCHANGED bvars
    [] a.op = "domain" -> a.rlo = lo /\ a.rhi = hi /\ a.delta = delta /\ UNCHANGED bvars
    [] a.op = "view" -> ViewOK(ViewReg(a), a) /\ UNCHANGED bvars
    [] a.op = "poke" -> \* write through the view at its k-th cell, then read the whole grid
         LET reg == ViewReg(a) p == CPoint(a.k, reg[1], reg[2]) IN
           /\ cell' = [cell EXCEPT ![COffset(p, lo, hi) + 1] = a.v] /\ a.all = cell' /\ UNCHANGED <<lo, hi, delta>>
    [] OTHER -> FALSE
--------------------------------------------------------------------------------
Sides == {"min", "max"}
Pts(r) == IF NonEmpty(r[1], r[2]) THEN Points(r[1], r[2]) ELSE {}
Wide == \A d \in 1..Len(lo) : hi[d] - lo[d] + 1 >= 2 * delta
GhostsOf == UNION { Pts(Ghost(d, s)) : d \in 1..Len(lo), s \in Sides }
Partition == Wide =>
  /\ Pts(Inner) \cup GhostsOf = Points(lo, hi)
  /\ Pts(Inner) \cap GhostsOf = {}
  /\ \A d \in 1..Len(lo) : Pts(Ghost(d, "min")) \cap Pts(Ghost(d, "max")) = {}
\* a side's source slab is what the neighbour's opposite ghost slab represents: shifting by the
\* inner width maps one onto the other
Images == Wide => \A d \in 1..Len(lo) : LET n == hi[d] - lo[d] + 1 - 2 * delta IN
  /\ { [p EXCEPT ![d] = @ + n] : p \in Pts(Ghost(d, "min")) } = Pts(Source(d, "max"))
  /\ { [p EXCEPT ![d] = @ - n] : p \in Pts(Ghost(d, "max")) } = Pts(Source(d, "min"))
================================================================================
