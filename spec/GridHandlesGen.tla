----------------------------- MODULE GridHandlesGen -----------------------------
(* Bounded instance of GridHandles: exhaustive checking, and generation of the  *)
(* behaviours that are replayed into the real grids.                            *)
EXTENDS GridHandles, Json
CONSTANTS BoxSet, Vals, MaxLen, Simulating
VARIABLE hist

Boxes1 == { <<<<0>>, <<1>>>>, <<<<-1>>, <<1>>>>, <<<<3>>, <<7>>>>, <<<<70000>>, <<70002>>>> }
Boxes2 == { <<<<0,0>>, <<1,2>>>>, <<<<-2,-1>>, <<0,0>>>>, <<<<3,-2>>, <<4,1>>>>, <<<<-300,40000>>, <<-299,40001>>>> }
Boxes3 == { <<<<0,0,0>>, <<1,2,1>>>>, <<<<-2,-1,-1>>, <<0,0,2>>>>, <<<<3,-2,5>>, <<4,0,6>>>> }
\* large and small, so that a lazily allocating store both grows and gives memory back
BoxesLazy == { <<<<0>>, <<0>>>>, <<<<-3>>, <<20>>>>, <<<<1>>, <<150>>>>, <<<<0>>, <<400>>>> }
BoxesMC == { <<<<0>>, <<0>>>>, <<<<-1>>, <<0>>>> }

Corners(lo, hi) == { lo, hi }

Acts ==
       {[op |-> "def", g |-> g] : g \in Handle}
  \cup {[op |-> "new", g |-> g, lo |-> b[1], hi |-> b[2]] : g \in Handle, b \in BoxSet}
  \cup {[op |-> "copy", g |-> g, s |-> s] : g \in Handle, s \in Handle}
  \cup {[op |-> "assign", g |-> g, s |-> s] : g \in Handle, s \in Handle}
  \cup {[op |-> "del", g |-> g] : g \in Handle}
  \cup {[op |-> "resize", g |-> g, lo |-> b[1], hi |-> b[2]] : g \in Handle, b \in BoxSet}
  \cup {[op |-> "like", g |-> g, s |-> s] : g \in Handle, s \in Handle}
  \cup UNION {{[op |-> "write", g |-> g, p |-> p, v |-> v] : g \in Handle, v \in Vals,
                 p \in Corners(b[1], b[2])} : b \in BoxSet}
  \cup {[op |-> "fill", g |-> g, v |-> v] : g \in Handle, v \in Vals}

GInit == Init /\ hist = <<>>
GNext == \/ Len(hist) < MaxLen /\ \E a \in Acts : Do(a) /\ hist' = Append(hist, a)
         \* the only step at full length, so that a simulated behaviour is printed once
         \/ Simulating /\ Len(hist) = MaxLen /\ UNCHANGED vars /\ hist' = Append(hist, [op |-> "stop"])
GSpec == GInit /\ [][GNext]_<<own, blk, hist>>
\* without the history: for checking the specification itself
MSpec == GInit /\ [][(\E a \in Acts : Do(a)) /\ UNCHANGED hist]_<<own, blk, hist>>

NoHist == vars
EmitStep == PrintT("HIST" \o ToJson(hist'))
EmitEnd == Len(hist) > MaxLen => PrintT("HIST" \o ToJson(SubSeq(hist, 1, MaxLen)))
================================================================================
