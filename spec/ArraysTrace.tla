----------------------------- MODULE ArraysTrace ----------------------------
(* Checks recorded array operations against Arrays.  M: the arrays by number *)
(* ([ty, v]); every event shows all of them.                                 *)
EXTENDS Arrays, Json, IOUtils, TLC
VARIABLES h, l, M
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
After(M2, e) == /\ Len(e.all) = Len(M2) /\ \A i \in DOMAIN M2: e.all[i] = M2[i].v
Set(i, X) == [M EXCEPT ![i].v = X]
Do(e) ==
  IF e.op = "CRASH" THEN FALSE
  ELSE /\ CASE e.op = "arrays" -> M' = [i \in DOMAIN e.ty |-> [ty |-> e.ty[i], v |-> e.all[i]]]
            [] e.op = "set" -> M' = Set(e.t, e.v)                                  \* element by element, or in a constructor
            [] e.op = "assign" -> M' = Set(e.t, Assign(M[e.t].ty, M[e.t].v, e.how, e.e, [i \in DOMAIN e.as |-> M[e.as[i]].v], e.ss))
            [] e.op = "elem" -> M' = Set(e.t, Assign(M[e.t].ty, M[e.t].v, e.how, [k |-> "s", ty |-> M[e.t].ty, i |-> 1], <<>>, <<M[e.t].v[e.j + 1]>>))  \* X op= X[j]
            [] e.op = "fill" -> M' = Set(e.t, [j \in DOMAIN M[e.t].v |-> e.x])
            [] e.op = "fillElem" -> M' = Set(e.t, [j \in DOMAIN M[e.t].v |-> M[e.t].v[e.j + 1]])
            [] e.op = "put" -> M' = Set(e.t, [M[e.t].v EXCEPT ![e.j + 1] = e.x])
            [] OTHER -> UNCHANGED M
       /\ e.op # "arrays" => After(M', e)
       /\ e.op = "compare" => LET X == M[e.a].v Y == M[e.b].v IN
            e.eq = Same(X, Y) /\ e.ne = ~Same(X, Y) /\ e.lt = Less(X, Y) /\ e.le = LessEq(X, Y)
       /\ e.op = "reduce" => LET X == M[e.a].v t == M[e.a].ty IN
            e.sum = Sum(t, X) /\ e.prod = Product(t, X) /\ e.sqr = Squares(t, X)
       /\ e.op = "read" => e.v = M[e.a].v
       /\ e.op = "project" => e.v = SubSeq(M[e.a].v, 1, e.k)
       /\ e.op = "without" => e.v = Without(M[e.a].v, e.d)
       /\ e.op = "constants" => /\ \A j \in DOMAIN e.zero: e.zero[j] = 0
                                /\ \A j \in DOMAIN e.one: e.one[j] = One(M[e.a].ty)
                                /\ Len(e.zero) = Len(M[e.a].v) /\ Len(e.one) = Len(M[e.a].v)
TInit == h \in 1..Len(Hist) /\ l = 0 /\ M = <<>>
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l, M>>
TSpec == TInit /\ [][TNext]_<<h, l, M>>
=============================================================================
