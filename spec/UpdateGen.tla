------------------------------ MODULE UpdateGen -----------------------------
(* Prints behaviours of UpdateMC (the graph, what was set and what was updated). *)
EXTENDS UpdateMC, Json
VARIABLE log
GInit == Init /\ log = <<>>
Entry == IF up' # up /\ up'.ind # {-1} THEN <<[op |-> "begin", ind |-> up'.ind, dep |-> up'.dep]>>
         ELSE IF ops' = ops THEN <<>>
         ELSE IF T'.tick # T.tick THEN <<[op |-> "tick"]>>
         ELSE LET c == {i \in 1..2 : T'.vars[i].m # T.vars[i].m} IN
              IF c = {} THEN <<>> ELSE LET i == CHOOSE i \in c : TRUE IN <<[op |-> "set", i |-> i, v |-> T'.vars[i].m.n]>>
GNext == Next /\ log' = log \o Entry
GSpec == GInit /\ [][GNext]_<<g, T, todo, cnt, up, ops, old, calm, log>>
Emit == Idle /\ ops = MaxOps => PrintT("HIST" \o ToJson([d |-> [i \in 1..(N - 2) |-> g.d[i + 2]], al |-> g.al, log |-> log]))
=============================================================================
