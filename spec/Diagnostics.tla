----------------------------- MODULE Diagnostics ----------------------------
(* The schedule of diagnostic output.                                        *)
(* A diagnostic is [id, kind, per, next, count, append, single, name, alive, *)
(* due]: kind "step" writes at the multiples of per steps, kind "time" at    *)
(* the output times next, next + per, ...  Times are integers (multiples of  *)
(* a small power of two).  A name is [pre, num]: the number of the output is *)
(* put into the file name where num holds.  Files map file names to the      *)
(* sequence of outputs they hold; an output is the time stamp at its writing.*)
EXTENDS Integers, Sequences, FiniteSets
Final == -1            \* the number of the final output, at a negative step

Step(per, append, single, name) ==
  [kind |-> "step", per |-> per, next |-> 0, count |-> 0, append |-> append, single |-> single, name |-> name, alive |-> TRUE, wrote |-> FALSE]
Time(per, delay, append, single, name) ==
  [kind |-> "time", per |-> per, next |-> delay, count |-> 0, append |-> append, single |-> single, name |-> name, alive |-> TRUE, wrote |-> FALSE]

Alive(D, k) == {i \in DOMAIN D: D[i].alive /\ D[i].kind = k}
(* Only the clocks that are needed have to be known *)
CanExecute(D, hasStep, hasTime) ==
  /\ hasStep \/ hasTime
  /\ Alive(D, "step") # {} => hasStep
  /\ Alive(D, "time") # {} => hasTime
CanAdjust(D, hasTime) == Alive(D, "time") # {} => hasTime

Due(d, step, time) ==
  IF d.kind = "step" THEN step < 0 \/ step % d.per = 0 ELSE time >= d.next
(* every process keeps the schedule, also one that leaves the writing to the *)
(* master                                                                    *)
Writes(d, master) == master \/ ~d.single
Number(d, step) == IF d.kind = "time" THEN d.count ELSE IF step < 0 THEN Final ELSE step
FileName(d, step) == [pre |-> d.name.pre, n |-> IF d.name.num /\ ~d.append THEN <<Number(d, step)>> ELSE <<>>]
Advance(d, step, time, master) ==
  IF ~d.alive \/ ~Due(d, step, time) THEN d
  ELSE LET w == [d EXCEPT !.wrote = @ \/ Writes(d, master)] IN
       IF d.kind = "step" THEN w ELSE [w EXCEPT !.next = @ + d.per, !.count = @ + 1]
(* Files: a set of [file, out]; one entry for each name *)
Content(F, f) == LET S == {x \in F: x.file = f} IN IF S = {} THEN <<>> ELSE (CHOOSE x \in S: TRUE).out
Put(F, f, out) == {x \in F: x.file # f} \cup {[file |-> f, out |-> out]}
WriteOne(F, d, step, time, master, stamp) ==
  IF ~d.alive \/ ~Due(d, step, time) \/ ~Writes(d, master) THEN F
  ELSE LET f == FileName(d, step) IN
       Put(F, f, IF d.append /\ d.wrote THEN Append(Content(F, f), stamp) ELSE <<stamp>>)
RECURSIVE WriteAll(_, _, _, _, _, _, _)
WriteAll(F, D, i, step, time, master, stamp) ==
  IF i > Len(D) THEN F
  ELSE WriteAll(WriteOne(F, D[i], step, time, master, stamp), D, i + 1, step, time, master, stamp)
AdvanceAll(D, step, time, master) == [i \in DOMAIN D |-> Advance(D[i], step, time, master)]
(* The largest step that is not larger than dt and passes over no output     *)
Min(S) == CHOOSE x \in S: \A y \in S: x <= y
Adjusted(D, time, dt) ==
  Min({dt} \cup {D[i].next - time: i \in {j \in Alive(D, "time"): D[j].next > time}})
=============================================================================
