---------------------------------- MODULE Box ----------------------------------
(* Rectangular index boxes: a box is given by its inclusive lower and upper     *)
(* corners, both sequences of integers of the same length (the rank).           *)
EXTENDS Integers, Sequences, FiniteSets

RankOf(lo) == Len(lo)
Extent(lo, hi) == [d \in 1..Len(lo) |-> hi[d] - lo[d] + 1]

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Product(s) == ProdFrom(s, 1)

RECURSIVE SumFrom(_, _)
SumFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumFrom(s, i + 1)
Sum(s) == SumFrom(s, 1)

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

NonEmpty(lo, hi) == \A d \in 1..Len(lo) : lo[d] <= hi[d]
CellCount(lo, hi) == IF NonEmpty(lo, hi) THEN Product(Extent(lo, hi)) ELSE 0
Inside(p, lo, hi) == \A d \in 1..Len(lo) : lo[d] <= p[d] /\ p[d] <= hi[d]

(* position of p in row-major (last index fastest) order, counted from 0 *)
RECURSIVE CPos(_, _, _, _)
CPos(p, lo, hi, d) ==
  IF d = 0 THEN 0 ELSE CPos(p, lo, hi, d - 1) * (hi[d] - lo[d] + 1) + (p[d] - lo[d])
COffset(p, lo, hi) == CPos(p, lo, hi, Len(lo))

(* position of p in column-major (first index fastest) order, counted from 0 *)
RECURSIVE FPos(_, _, _, _)
FPos(p, lo, hi, d) ==
  IF d > Len(lo) THEN 0 ELSE (p[d] - lo[d]) + (hi[d] - lo[d] + 1) * FPos(p, lo, hi, d + 1)
FOffset(p, lo, hi) == FPos(p, lo, hi, 1)

(* the inverse of COffset: the point at row-major position k *)
RECURSIVE CInvFrom(_, _, _, _)
CInvFrom(k, lo, hi, d) ==
  IF d = 0 THEN <<>>
  ELSE CInvFrom(k \div (hi[d] - lo[d] + 1), lo, hi, d - 1)
       \o << lo[d] + (k % (hi[d] - lo[d] + 1)) >>
CPoint(k, lo, hi) == CInvFrom(k, lo, hi, Len(lo))

RECURSIVE FInvFrom(_, _, _, _)
FInvFrom(k, lo, hi, d) ==
  IF d > Len(lo) THEN <<>>
  ELSE << lo[d] + (k % (hi[d] - lo[d] + 1)) >>
       \o FInvFrom(k \div (hi[d] - lo[d] + 1), lo, hi, d + 1)
FPoint(k, lo, hi) == FInvFrom(k, lo, hi, 1)

(* all points of the box, as a set *)
Points(lo, hi) == { CPoint(k, lo, hi) : k \in 0..(CellCount(lo, hi) - 1) }

Intersects(alo, ahi, blo, bhi) ==
  \A d \in 1..Len(alo) : Max2(alo[d], blo[d]) <= Min2(ahi[d], bhi[d])
SubBox(alo, ahi, blo, bhi) ==
  \A d \in 1..Len(alo) : blo[d] <= alo[d] /\ ahi[d] <= bhi[d]
================================================================================
