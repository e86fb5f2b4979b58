----------------------------- MODULE ScannerTrace ---------------------------
(* Checks the tokens the real scanner delivered against Scanner. *)
EXTENDS Scanner, Json, IOUtils, TLC
VARIABLES h, l
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
AtEnd(cs, ln) == ln = 1 + Lines(cs, 1, Len(cs))
SameTok(t, o) == t.k = o.k /\ t.s = o.s /\ t.from <= o.line /\ o.line <= t.to
Do(e) ==
  IF e.op = "CRASH" THEN FALSE
  ELSE LET r == Scan(e.cs)
           n == Len(r) - 1
       IN /\ e.file
          /\ IF r[n + 1].k = "error"
             \* the end of the file counts as a line of its own
             THEN e.res = "parser" /\ e.line >= r[n + 1].from /\ e.line <= r[n + 1].to + (IF AtEnd(e.cs, r[n + 1].to) THEN 1 ELSE 0)
             ELSE /\ e.res = "ok"
                  /\ Len(e.toks) = n
                  /\ \A i \in 1..n : SameTok(r[i], e.toks[i])
TInit == h \in 1..Len(Hist) /\ l = 0
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l>>
TSpec == TInit /\ [][TNext]_<<h, l>>
=============================================================================
