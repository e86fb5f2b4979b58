---------------------------- MODULE LifecycleTrace --------------------------
(* Checks recorded calls of blocks against Lifecycle. *)
EXTENDS Lifecycle, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
Do(e) ==
  CASE e.op = "add" -> Add(e.p)
    [] e.op = "setup" -> Setup(e.b)
    [] e.op = "evaluate" -> Evaluate(e.b)
    [] e.op = "initall" -> InitAll(e.b)
    [] e.op = "call" -> Call /\ e.b = Head(run.todo) /\ e.ph = Head(run.phases)
    [] e.op = "look" -> Idle /\ e.vals = vals /\ e.lists = lists /\ e.kids = kids /\ e.parents = par /\ UNCHANGED lvars   \* between runs
    [] OTHER -> FALSE
TInit == LInit /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<lvars, h, l>>
TSpec == TInit /\ [][TNext]_<<lvars, h, l>>
=============================================================================
