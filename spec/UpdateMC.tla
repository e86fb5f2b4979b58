------------------------------- MODULE UpdateMC -----------------------------
(* Dependency updates on all acyclic graphs of a few variables, step by step: an     *)
(* updater works off the variables it must recompute in any order that respects the   *)
(* dependencies (the algorithm of the library keeps a counter per variable).          *)
(* Variables 1 and 2 belong to the program, 3..N are formulas: 1 + the sum of the     *)
(* variables they refer to (+ always()).                                              *)
EXTENDS Setup
CONSTANTS N, MaxOps
VARIABLES g, T, todo, cnt, up, ops, old, calm

Ref(i) == [k |-> "ref", s |-> "x", p |-> <<"x">>, x |-> i]
Add(a, b) == [k |-> "bin", op |-> "+", a |-> a, b |-> b]
RECURSIVE SumOf(_)
SumOf(s) == IF s = {} THEN [k |-> "lit", v |-> IntV(1)]
            ELSE LET i == CHOOSE i \in s : \A j \in s : j <= i IN Add(SumOf(s \ {i}), Ref(i))
Tree0(s, al) == IF al THEN Add([k |-> "fun", f |-> "always", a |-> <<>>], SumOf(s)) ELSE SumOf(s)
Var(i, gr) == IF i <= 2 THEN [NewVar(1, "x", "int") EXCEPT !.par = TRUE, !.ro = TRUE, !.fixed = FALSE, !.ast = [k |-> "ext"], !.m = IntV(0), !.v = IntV(0)]
              ELSE [NewVar(1, "x", "int") EXCEPT !.par = TRUE, !.fixed = FALSE, !.ast = Tree0(gr.d[i], gr.al = i)]
Graphs == {[d |-> d, al |-> al] : d \in {f \in [3..N -> SUBSET (1..(N - 1))] : \A i \in 3..N : f[i] \subseteq 1..(i - 1)}, al \in {0, 3}}
Zero == [blocks |-> <<[name |-> "app", cls |-> "A", parent |-> 0, real |-> TRUE]>>, cur |-> 1, mode |-> "ready", why |-> "", lines |-> <<0, 0>>,
         loose |-> FALSE, tick |-> IntV(0), ups |-> <<>>]
Base(gr) == TakeOver(Updated([vars |-> [i \in 1..N |-> Var(i, gr)]] @@ Zero, 3..N), 3..N)

Idle == todo = {} /\ up.ind = {-1}
Init == /\ g \in Graphs /\ T = Base(g) /\ todo = {} /\ cnt = <<>> /\ up = [ind |-> {-1}, dep |-> {}] /\ ops = 0 /\ old = T /\ calm = {}
Set == /\ Idle /\ ops < MaxOps
       /\ \E i \in 1..2, v \in 1..2 : T' = [T EXCEPT !.vars[i].m = IntV(v)]
       /\ ops' = ops + 1 /\ UNCHANGED <<g, todo, cnt, up, old>> /\ calm' = {}
Tick == /\ Idle /\ ops < MaxOps /\ g.al # 0
        /\ T' = [T EXCEPT !.tick = IntV(5)] /\ ops' = ops + 1 /\ UNCHANGED <<g, todo, cnt, up, old>> /\ calm' = {}
Begin == /\ Idle /\ ops < MaxOps
         /\ \E I \in SUBSET (1..2), D \in SUBSET (3..N) : up' = [ind |-> I, dep |-> D]
         /\ LET U == UpdateSet(T, up') IN todo' = U /\ cnt' = [i \in U |-> Cardinality(DepsOf(T, i) \cap U)]
         /\ old' = T /\ ops' = ops + 1 /\ UNCHANGED <<g, T>> /\ calm' = {}
\* recompute one variable whose counter is zero
Step == /\ todo # {}
        /\ \E i \in todo : /\ cnt[i] = 0
                           /\ T' = [T EXCEPT !.vars[i].v = ValueNow(T, Env(T), i)]
                           /\ todo' = todo \ {i}
                           /\ cnt' = [j \in todo \ {i} |-> IF i \in DepsOf(T, j) THEN cnt[j] - 1 ELSE cnt[j]]
        /\ UNCHANGED <<g, up, ops, old>> /\ calm' = {}
Finish == /\ todo = {} /\ up.ind # {-1}
          /\ T' = TakeOver(T, up.dep) /\ calm' = up.ind /\ UNCHANGED <<g, todo, cnt, ops, old>>
          /\ up' = [up EXCEPT !.ind = {-1}]
Next == Set \/ Tick \/ Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_<<g, T, todo, cnt, up, ops, old, calm>>

RECURSIVE TrueValue(_)
TrueValue(i) == IF i <= 2 THEN T.vars[i].m.n
                ELSE LET s == g.d[i] IN 1 + (IF g.al = i THEN T.tick.n ELSE 0) + (IF 1 \in s THEN TrueValue(1) ELSE 0) + (IF 2 \in s THEN TrueValue(2) ELSE 0)
                     + (IF 3 \in s THEN TrueValue(3) ELSE 0) + (IF 4 \in s THEN TrueValue(4) ELSE 0) + (IF 5 \in s THEN TrueValue(5) ELSE 0)
\* an update that knows both program variables makes all its dependents right
Right == calm = {1, 2} => \A i \in up.dep : T.vars[i].m = IntV(TrueValue(i))
\* the outcome does not depend on the order: it is that of the specification's update
Deterministic == calm # {} => LET U == UpdateSet(old, [ind |-> calm, dep |-> up.dep]) IN T.vars = TakeOver(Updated(old, U), up.dep).vars
\* never stuck
Progress == todo # {} => \E i \in todo : cnt[i] = 0
\* variables that nothing asked for, or whose inputs were not given, keep their values
Untouched == calm # {} => \A i \in 3..N : i \notin Back(old, up.dep) \/ (Back(old, {i}) \cap calm = {} /\ AlwaysOnes(old) \cap Back(old, {i}) = {}) => T.vars[i].v = old.vars[i].v
OnlyDependents == calm # {} => \A i \in 3..N : i \notin up.dep => T.vars[i].m = old.vars[i].m
=============================================================================
