-------------------------- MODULE DiagnosticsTrace --------------------------
(* Checks recorded runs of the diagnostic manager against Diagnostics.       *)
EXTENDS Diagnostics, Json, IOUtils, TLC
VARIABLES h, l, D, F, C
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
(* C: the clocks and the role of the process *)
Stamp == [s |-> C.s, t |-> C.t]
(* The files on disk, complete after every call; empty ones hold no output *)
Listed(e) == {[file |-> [pre |-> x.pre, n |-> x.n], out |-> x.out]: x \in {e.files[k]: k \in DOMAIN e.files}}
OnDisk(e, FF) == {x \in Listed(e): x.out # <<>>} = FF
Do(e) ==
  IF e.op = "CRASH" THEN FALSE
  ELSE CASE e.op = "new" ->
         /\ D' = Append(D, IF e.kind = "step" THEN Step(e.per, e.append, e.single, e.name) ELSE Time(e.per, e.delay, e.append, e.single, e.name))
         /\ UNCHANGED <<F, C>>
    [] e.op = "del" -> D' = [D EXCEPT ![e.i].alive = FALSE] /\ UNCHANGED <<F, C>> /\ OnDisk(e, F)
    [] e.op = "clock" -> C' = [C EXCEPT !.hasS = @ \/ e.which = "step", !.hasT = @ \/ e.which = "time"] /\ UNCHANGED <<D, F>>
    [] e.op = "role" -> C' = [C EXCEPT !.master = e.master] /\ UNCHANGED <<D, F>>
    [] e.op = "tick" -> C' = [C EXCEPT !.s = e.s, !.t = e.t] /\ UNCHANGED <<D, F>>
    [] e.op = "exec" ->
         IF CanExecute(D, C.hasS, C.hasT)
         THEN /\ e.res = "ok"
              /\ F' = WriteAll(F, D, 1, C.s, C.t, C.master, Stamp)
              /\ D' = AdvanceAll(D, C.s, C.t, C.master)
              /\ UNCHANGED C
              /\ OnDisk(e, F')
         ELSE e.res = "error" /\ UNCHANGED <<D, F, C>> /\ OnDisk(e, F)
    [] e.op = "adjust" ->
         /\ UNCHANGED <<D, F, C>>
         /\ IF CanAdjust(D, C.hasT) THEN e.res = "ok" /\ e.x = Adjusted(D, C.t, e.dt) ELSE e.res = "error"
TInit == h \in 1..Len(Hist) /\ l = 0 /\ D = <<>> /\ F = {} /\ C = [hasS |-> FALSE, hasT |-> FALSE, master |-> TRUE, s |-> 0, t |-> 0]
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l, D, F, C>>
TSpec == TInit /\ [][TNext]_<<h, l, D, F, C>>
=============================================================================
