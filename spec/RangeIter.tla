------------------------------- MODULE RangeIter -------------------------------
(* A rectangular index range, the operations on it, and iteration over it.      *)
(* Iteration is a machine: a cursor moves through the points of the range in    *)
(* row-major order; `seen` collects the points visited since the last start.    *)
EXTENDS Box
VARIABLES lo, hi, cur, seen
rvars == <<lo, hi, cur, seen>>

RInit == lo = <<0>> /\ hi = <<0>> /\ cur = -1 /\ seen = {}
N == CellCount(lo, hi)
NoIter == cur' = -1 /\ seen' = {}
SetRange(l0, h0) == lo' = l0 /\ hi' = h0 /\ NoIter
Grow(d) == /\ lo' = [i \in 1..Len(lo) |-> lo[i] - d[i]]
           /\ hi' = [i \in 1..Len(hi) |-> hi[i] + d[i]] /\ NoIter
\* the iterator: Start puts it on the first point (or at the end of an empty range), Step moves it on;
\* `same` lists the positions it had before whose copies compare equal to it: only its own
AtEnd(c) == c = N
Start == cur' = 0 /\ seen' = {} /\ UNCHANGED <<lo, hi>>
Step == /\ cur >= 0 /\ ~AtEnd(cur)
        /\ cur' = cur + 1 /\ seen' = seen \cup {CPoint(cur, lo, hi)} /\ UNCHANGED <<lo, hi>>

(* whole loops *)
COrder == [k \in 1..N |-> CPoint(k - 1, lo, hi)]
FOrder == [k \in 1..N |-> FPoint(k - 1, lo, hi)]
LoopOK(kind, pts) ==
  CASE kind \in {"iter", "post", "c"} -> pts = COrder
    [] kind = "f" -> pts = FOrder
    [] kind = "par" -> Len(pts) = N /\ { pts[k] : k \in 1..Len(pts) } = Points(lo, hi)
Drop(s, d) == [i \in 1..(Len(s) - 1) |-> IF i < d THEN s[i] ELSE s[i + 1]]

(* long loops are reported in part: how many points were visited, which ones at some places of *)
(* the order (counted from 0), and how often some given points                                 *)
TourOK(a) == /\ a.count = N
             /\ \A i \in 1..Len(a.pts) : a.visits[i] = IF Inside(a.pts[i], lo, hi) THEN 1 ELSE 0
             /\ a.kind # "par" => \A i \in 1..Len(a.ks) :
                  a.at[i] = IF a.ks[i] >= N THEN <<>> ELSE IF a.kind = "f" THEN FPoint(a.ks[i], lo, hi) ELSE CPoint(a.ks[i], lo, hi)

RDo(a) ==
  CASE a.op = "set"  -> SetRange(a.lo, a.hi)
    [] a.op = "grow" -> Grow(a.d)
    [] a.op = "start" -> Start /\ a.same = <<0>> /\ a.atend = AtEnd(0) /\ (N > 0 => a.pos = lo)
    [] a.op = "step" -> Step /\ a.same = <<cur + 1>> /\ a.atend = AtEnd(cur + 1)
                             /\ (~AtEnd(cur + 1) => a.pos = CPoint(cur + 1, lo, hi))
                             /\ (a.old # <<>> => a.old = CPoint(cur, lo, hi))
    [] a.op = "loop" -> LoopOK(a.kind, a.pts) /\ UNCHANGED rvars
    [] a.op = "tour" -> TourOK(a) /\ UNCHANGED rvars
    [] a.op = "inside" -> a.res = Inside(a.p, lo, hi) /\ UNCHANGED rvars
    [] a.op = "drop" -> a.rlo = Drop(lo, a.d) /\ a.rhi = Drop(hi, a.d) /\ UNCHANGED rvars
    [] a.op = "project" -> a.rlo = SubSeq(lo, 1, a.n) /\ a.rhi = SubSeq(hi, 1, a.n) /\ UNCHANGED rvars
    [] a.op = "get" -> a.rlo = lo /\ a.rhi = hi /\ UNCHANGED rvars
    [] OTHER -> FALSE

--------------------------------------------------------------------------------
(* the property: at the end exactly the points of the range were seen, and each *)
(* step adds one that had not been seen                                         *)
ExactlyOnce == cur >= 0 => /\ Cardinality(seen) = cur
                           /\ \A p \in seen : Inside(p, lo, hi)
                           /\ AtEnd(cur) => seen = Points(lo, hi)
Monotone == \A k \in 1..(N - 1) : COrder[k] # COrder[k + 1] /\ FOrder[k] # FOrder[k + 1]
SameSet == { COrder[k] : k \in 1..N } = { FOrder[k] : k \in 1..N }
LastFastest == \A k \in 1..(N - 1) :
   LET a == COrder[k] b == COrder[k + 1] f == FOrder[k] g == FOrder[k + 1] r == Len(lo) IN
     /\ (a[r] < hi[r] => b = [a EXCEPT ![r] = @ + 1])
     /\ (f[1] < hi[1] => g = [f EXCEPT ![1] = @ + 1])
\* lexicographic order of the points
RECURSIVE LexLess(_, _, _)
LexLess(a, b, d) == IF d > Len(a) THEN FALSE ELSE a[d] < b[d] \/ (a[d] = b[d] /\ LexLess(a, b, d + 1))
Ordered == \A k \in 1..(N - 1) : LexLess(COrder[k], COrder[k + 1], 1)
================================================================================
