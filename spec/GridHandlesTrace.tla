---------------------------- MODULE GridHandlesTrace ----------------------------
(* Behaviours recorded from real grids, checked against GridHandles.            *)
EXTENDS GridHandles, Json, IOUtils
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev

(* One observation per existing grid object after every operation:              *)
(*  o.g, o.n (number of cells), o.lo, o.hi, o.dims, o.v (cells in row-major      *)
(*  order of the box), o.buf (which distinct buffer it uses, numbered in order    *)
(*  of first appearance; 0 when there is none)                                    *)
Matches(o, vw) ==
  IF ~vw.set THEN o.n <= 0
  ELSE /\ o.n = CellCount(vw.lo, vw.hi)
       /\ o.lo = vw.lo /\ o.hi = vw.hi
       /\ o.dims = Extent(vw.lo, vw.hi)
       /\ \A p \in DOMAIN vw.val : o.v[COffset(p, vw.lo, vw.hi) + 1] = vw.val[p]

ObsOK(obs) ==
  /\ {obs[i].g : i \in DOMAIN obs} = {g \in Handle : Alive(g)}
  /\ \A i \in DOMAIN obs : Matches(obs[i], View(obs[i].g))
  /\ \A i, j \in DOMAIN obs :
       (View(obs[i].g).set /\ View(obs[j].g).set /\ obs[i].n > 0 /\ obs[j].n > 0) =>
          ((obs[i].buf = obs[j].buf) <=> Share(obs[i].g, obs[j].g))

TInit == Init /\ h \in 1..Len(Hist) /\ l = 0
TNext == \/ /\ l < Len(Ev)
            /\ l' = l + 1 /\ UNCHANGED h
            /\ Do(Ev[l + 1])
            /\ ObsOK(Ev[l].obs)'   \* l is primed too: the event just consumed
         \/ l = Len(Ev) /\ UNCHANGED <<own, blk, h, l>>
TSpec == TInit /\ [][TNext]_<<own, blk, h, l>>
================================================================================
