----------------------------- MODULE LifecycleMC ----------------------------
(* What a run guarantees, on all small trees. *)
EXTENDS Lifecycle
CONSTANTS MaxBlocks
VARIABLE log
Init == LInit /\ log = <<>>
Turn == Call /\ log' = Append(log, [ph |-> Head(run.phases), b |-> Head(run.todo)])
Next == \/ Len(par) < MaxBlocks /\ log = <<>> /\ (\E p \in 0..Len(par) : Add(p)) /\ UNCHANGED log
        \/ log = <<>> /\ (\E b \in 1..Len(par) : Setup(b) \/ InitAll(b)) /\ UNCHANGED log
        \/ Turn
Spec == Init /\ [][Next]_<<lvars, log>> /\ WF_<<lvars, log>>(Turn)
Calls(ph) == SelectSeq(log, LAMBDA e : e.ph = ph)
Done == Idle /\ log # <<>>
PhasesOf == IF log[1].ph = "setup" THEN <<"setup">> ELSE Phases
Root == log[1].b
\* at the end each block of the tree was called once in each phase
Once == Done => \A i \in 1..Len(PhasesOf) : LET c == Calls(PhasesOf[i]) IN
          Len(c) = Cardinality(In(Below(Root))) /\ {c[k].b : k \in 1..Len(c)} = In(Below(Root))
Whole == Done /\ Len(PhasesOf) > 1 => par[Root] = 0
\* at no time is a phase begun before the one before it has ended
PhaseByPhase == \A k \in 1..(Len(log) - 1) : log[k].ph # log[k + 1].ph =>
                  \A m \in 1..k : \A n \in (k + 1)..Len(log) : log[m].ph # log[n].ph
\* parents come before their children, children in the order in which they were added, with all that is below them
Place(c, b) == CHOOSE k \in 1..Len(c) : c[k].b = b
Ordered == Done => \A i \in 1..Len(PhasesOf) : LET c == Calls(PhasesOf[i]) IN
             \A b \in In(Below(Root)) :
               /\ (b # Root => Place(c, par[b]) < Place(c, b))
               /\ \A m, n \in 1..Len(kids[b]) : m < n => \A x \in In(Below(kids[b][m])) : Place(c, x) < Place(c, kids[b][n])
\* parents know their children, in order
Known == Done /\ Len(PhasesOf) > 1 => \A b \in In(Below(Root)) : lists[b] = kids[b] /\ vals[b] = b
Ends == []<>Idle
=============================================================================
