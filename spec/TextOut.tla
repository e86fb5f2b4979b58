------------------------------- MODULE TextOut ------------------------------
(* Arrays and grids written to text streams.                                  *)
(* A stream is the text written to it so far.  A grid is given by its box and *)
(* its cells in row-major order; it is written with the first index running   *)
(* along the rows, a blank between neighbours, a newline after every row (of  *)
(* grids of two or more dimensions) and another one after every two-          *)
(* dimensional slice (of three or more).                                      *)
EXTENDS Box, TLC
VARIABLE text                                  \* text[s]: what stream s holds
RECURSIVE Join(_, _, _)
Join(vals, i, n) == IF i > n THEN "" ELSE IF i = n THEN ToString(vals[i]) ELSE ToString(vals[i]) \o " " \o Join(vals, i + 1, n)
Line(vals) == Join(vals, 1, Len(vals))
CellAt(c, lo, hi, p) == c[COffset(p, lo, hi) + 1]
\* the cells in the order in which they are written: first index fastest
Written(c, lo, hi) == [k \in 1..CellCount(lo, hi) |-> CellAt(c, lo, hi, FPoint(k - 1, lo, hi))]
RECURSIVE Rows(_, _, _, _)
Rows(w, len, perSlice, r) ==                   \* from row r on; no slices if perSlice = 0
  IF (r - 1) * len >= Len(w) THEN ""
  ELSE Line(SubSeq(w, (r - 1) * len + 1, r * len)) \o "\n"
       \o (IF perSlice > 0 /\ r % perSlice = 0 THEN "\n" ELSE "") \o Rows(w, len, perSlice, r + 1)
GridText(c, lo, hi) ==
  LET w == Written(c, lo, hi) e == Extent(lo, hi) IN
  IF Len(lo) = 1 THEN Line(w) ELSE Rows(w, e[1], IF Len(lo) = 2 THEN 0 ELSE e[2], 1)
TInit0 == text = <<"", "">>
Put(s, t) == text' = [text EXCEPT ![s] = @ \o t]
Do(a) == CASE a.op = "array" -> Put(a.s, Line(a.vals))
           [] a.op = "grid" -> a.after = a.cells /\ Put(a.s, GridText(a.cells, a.lo, a.hi))
           [] a.op = "mark" -> Put(a.s, a.t)
           [] OTHER -> FALSE
=============================================================================
