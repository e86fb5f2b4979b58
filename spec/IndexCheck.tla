------------------------------ MODULE IndexCheck --------------------------------
(* Checked access to grids.  Two checking policies: "assert" lets an access      *)
(* through exactly if it is inside the bounds and aborts otherwise; "debug"      *)
(* redirects an access outside to the nearest cell and keeps a record of it.     *)
EXTENDS Box
VARIABLES box,     \* box[g] = <<lo, hi>> of grid g, <<>> if there is none
          flag,    \* has an invalid access been recorded?
          off      \* the index that was last offending
cvars == <<box, flag, off>>
CInit(G) == box = [g \in G |-> <<>>] /\ flag = FALSE /\ off = <<>>

Nearest(p, lo, hi) == [d \in 1..Len(p) |-> IF p[d] < lo[d] THEN lo[d] ELSE IF p[d] > hi[d] THEN hi[d] ELSE p[d]]
Wrong(p, lo, hi) == { d \in 1..Len(p) : p[d] < lo[d] \/ p[d] > hi[d] }
\* the record names an offending dimension (counted from 0), negative if below the bound
InfoOK(i, p, lo, hi) == \E d \in Wrong(p, lo, hi) : i = IF p[d] < lo[d] THEN -(d - 1) ELSE d - 1

SetBox(g, l0, h0) == box' = [box EXCEPT ![g] = <<l0, h0>>] /\ UNCHANGED <<flag, off>>
Debug(g, p) == LET b == box[g] IN
  /\ b # <<>>
  /\ IF Inside(p, b[1], b[2]) THEN UNCHANGED cvars
     ELSE flag' = TRUE /\ off' = p /\ UNCHANGED box
DebugHit(g, p) == COffset(Nearest(p, box[g][1], box[g][2]), box[g][1], box[g][2])
AssertOutcome(g, p) == IF Inside(p, box[g][1], box[g][2]) THEN "ok" ELSE "abort"

CDo(a) ==
  CASE a.op = "make" -> SetBox(a.g, a.lo, a.hi)
    [] a.op = "debug" -> /\ Debug(a.g, a.p) /\ a.hit = DebugHit(a.g, a.p)
                         /\ a.flag = flag'
                         /\ (off' # <<>> => a.off = off')
                         /\ (~Inside(a.p, box[a.g][1], box[a.g][2]) => InfoOK(a.info, a.p, box[a.g][1], box[a.g][2]))
    [] a.op = "assert" -> /\ a.res = AssertOutcome(a.g, a.p)
                          /\ a.res = "ok" => a.hit = COffset(a.p, box[a.g][1], box[a.g][2])
                          /\ UNCHANGED cvars
    [] a.op = "array" -> /\ a.res = (IF 0 <= a.i /\ a.i < a.n THEN "ok" ELSE "abort")
                         /\ a.res = "ok" => a.val = a.i + 100
                         /\ UNCHANGED cvars
    [] OTHER -> FALSE
--------------------------------------------------------------------------------
(* Redirection is a projection onto the box: idempotent, the identity inside,    *)
(* and no cell of the box is nearer.                                             *)
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(p, q) == Sum([d \in 1..Len(p) |-> Abs(p[d] - q[d])])
================================================================================
