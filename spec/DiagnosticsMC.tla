---------------------------- MODULE DiagnosticsMC ---------------------------
(* A run of a simulation with some diagnostics: the clocks advance, with or  *)
(* without the adjusted step, diagnostics come and go.                       *)
EXTENDS Diagnostics, TLC
CONSTANTS MaxDiags, MaxExec, Dts, Pers, Delays
VARIABLES D, F, step, time, seen, adjusting, master, hist
vars == <<D, F, step, time, seen, adjusting, master, hist>>
New == {Step(p, a, FALSE, [pre |-> "s", num |-> TRUE]): p \in Pers, a \in BOOLEAN}
       \cup {Time(p, d, a, s, [pre |-> "t", num |-> TRUE]): p \in Pers, d \in Delays, a \in BOOLEAN, s \in BOOLEAN}
Rename(d, i) == [d EXCEPT !.name.pre = @ \o ToString(i)]
(* seen: what each execution saw, and which diagnostics were there *)
Init == D = <<>> /\ F = {} /\ step = 0 /\ time = 0 /\ seen = <<>> /\ adjusting \in BOOLEAN /\ master \in BOOLEAN /\ hist = <<>>
Add == /\ Len(D) < MaxDiags /\ Len(seen) < MaxExec
       /\ \E d \in New: D' = Append(D, Rename(d, Len(D) + 1)) /\ hist' = Append(hist, [op |-> "new", d |-> d])
       /\ UNCHANGED <<F, step, time, seen, adjusting, master>>
Kill == /\ \E i \in DOMAIN D: D[i].alive /\ D' = [D EXCEPT ![i].alive = FALSE] /\ hist' = Append(hist, [op |-> "del", i |-> i])
        /\ Len(seen) > 0 /\ Len(seen) < MaxExec
        /\ UNCHANGED <<F, step, time, seen, adjusting, master>>
Run(s, t) == /\ F' = WriteAll(F, D, 1, s, t, master, [s |-> s, t |-> t])
             /\ D' = AdvanceAll(D, s, t, master)
             /\ seen' = Append(seen, [s |-> s, t |-> t, n |-> Len(D), dead |-> {i \in DOMAIN D: ~D[i].alive}])
             /\ step' = s /\ time' = t
             /\ hist' = Append(hist, [op |-> "exec", s |-> s, t |-> t])
             /\ UNCHANGED <<adjusting, master>>
Exec == /\ Len(seen) < MaxExec /\ D # <<>>
        /\ \/ seen = <<>> /\ Run(0, 0)
           \/ \E dt \in Dts: Run(step + 1, time + (IF adjusting THEN Adjusted(D, time, dt) ELSE dt))
Stop == (Len(seen) = MaxExec) /\ UNCHANGED vars
Next == Add \/ Kill \/ Exec \/ Stop
Spec == Init /\ [][Next]_vars

Outputs(i) == {x \in F: x.file.pre = D[i].name.pre}
There(i) == {k \in 1..Len(seen): seen[k].n >= i /\ i \notin seen[k].dead}
(* A step diagnostic writes at the multiples of its interval and at no other *)
StepExact ==
  \A i \in DOMAIN D: D[i].kind = "step" =>
    LET due == {seen[k].s: k \in {j \in There(i): seen[j].s % D[i].per = 0}}
        got == IF D[i].append THEN UNION {{x.out[j].s: j \in DOMAIN x.out}: x \in Outputs(i)} ELSE {x.file.n[1]: x \in Outputs(i)}
    IN got = due
(* A time diagnostic never writes early, and numbers its outputs 0, 1, ...   *)
Total(i) == D[i].count
NeverEarly ==
  \A i \in DOMAIN D: D[i].kind = "time" =>
    /\ D[i].count > 0 => time >= D[i].next - D[i].per
    /\ ~D[i].append /\ Writes(D[i], master) => {x.file.n[1]: x \in Outputs(i)} = 0..(D[i].count - 1)
    /\ ~D[i].append => \A x \in Outputs(i): Len(x.out) = 1 /\ x.out[1].t >= D[i].next - (D[i].count - x.file.n[1]) * D[i].per
(* one output for each execution at most, and one each as long as some       *)
(* output is due                                                             *)
Started(i) == D[i].next - D[i].count * D[i].per
RECURSIVE Expect(_, _, _)
Expect(i, k, c) ==
  IF k > Len(seen) THEN c
  ELSE Expect(i, k + 1, IF k \in There(i) /\ seen[k].t >= Started(i) + c * D[i].per THEN c + 1 ELSE c)
NeverLate == \A i \in DOMAIN D: D[i].kind = "time" => D[i].count = Expect(i, 1, 0)
(* With adjusted steps every output is on time                               *)
OnTime ==
  adjusting => \A i \in DOMAIN D: D[i].kind = "time" /\ Writes(D[i], master) /\ There(i) # {} /\
      (\A k \in There(i): k >= 1) /\ Started(i) >= 0 =>
    LET first == CHOOSE k \in There(i): \A j \in There(i): k <= j IN
    seen[first].t <= Started(i) =>
      \A x \in Outputs(i): \A j \in DOMAIN x.out: (x.out[j].t - Started(i)) % D[i].per = 0
AdjustSafe ==
  \A dt \in Dts: LET a == Adjusted(D, time, dt) IN
    a > 0 /\ a <= dt /\ \A i \in Alive(D, "time"): ~(D[i].next > time /\ D[i].next < time + a)
(* All processes keep the same schedule: the schedule does not depend on who *)
(* writes (checked on the transition function)                               *)
SameSchedule ==
  \A i \in DOMAIN D: LET a == Advance(D[i], step + 1, time + 1, TRUE) b == Advance(D[i], step + 1, time + 1, FALSE) IN
    a.next = b.next /\ a.count = b.count
NotMine == ~master => \A i \in DOMAIN D: D[i].single => Outputs(i) = {}
=============================================================================
