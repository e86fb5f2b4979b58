--------------------------- MODULE SharedDataTrace --------------------------
(* Checks recorded retrievals of shared data against SharedData. *)
EXTENDS SharedData, Json, IOUtils, TLC
VARIABLES h, l, T, D
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
Result(e) == [r |-> e.res, x |-> e.x]
Do(e) ==
  IF e.op = "CRASH" THEN FALSE
  ELSE CASE e.op = "block" -> T' = Append(T, [name |-> e.name, parent |-> e.parent]) /\ UNCHANGED D
    [] e.op = "add" -> D' = Append(D, [b |-> e.b, key |-> e.key, ty |-> e.ty, x |-> e.x]) /\ UNCHANGED T
    [] e.op = "get" -> /\ UNCHANGED <<T, D>>
                       /\ LET v == Retrieve(T, D, e.b, e.key, e.ty) IN
                          IF e.how = "value" THEN Result(e) = v
                          ELSE \* as a pointer: registered objects, or registered pointers to such objects
                               LET w == Retrieve(T, D, e.b, e.key, e.ty \o "*") IN
                               IF w.r = "none" THEN Result(e) = v
                               ELSE IF v.r = "none" THEN Result(e) = w
                               ELSE Result(e) \in {v, w}
TInit == h \in 1..Len(Hist) /\ l = 0 /\ T = <<>> /\ D = <<>>
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l, T, D>>
TSpec == TInit /\ [][TNext]_<<h, l, T, D>>
=============================================================================
