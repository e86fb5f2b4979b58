------------------------------- MODULE ExchangeMC -------------------------------
(* The message passing behind exchange and accumulate, at the level of single    *)
(* sends and receives: PX x PY processes, each with a W x W tile and Delta ghost *)
(* layers, run the same program over all dimensions without any further         *)
(* synchronisation. Every interleaving must end in the state that the one-shot   *)
(* operators of Subdivision define, and none may get stuck.                      *)
EXTENDS Subdivision
CONSTANTS PX, PY, W, Acc, Delta
VARIABLES pc, chan, start          \* pc[p]: step; chan[<<from, to, tag>>]: messages in flight
mvars == <<layout, cells, pc, chan, start>>

P == PX * PY
Cx(p) == (p - 1) % PX
Cy(p) == (p - 1) \div PX
Lay == [glo |-> <<0, 0>>, ghi |-> <<PX * W - 1, PY * W - 1>>, delta |-> Delta,
        procs |-> [p \in 1..P |-> [ilo |-> <<Cx(p) * W, Cy(p) * W>>, ihi |-> <<Cx(p) * W + W - 1, Cy(p) * W + W - 1>>,
                                   lo |-> <<Cx(p) * W - Delta, Cy(p) * W - Delta>>,
                                   hi |-> <<Cx(p) * W + W - 1 + Delta, Cy(p) * W + W - 1 + Delta>>]]]
Side == W + 2 * Delta
(* process p, phase ph = 1 (fill lower ghosts), 2 (fill upper ghosts) of dimension d *)
(* layers, as index ranges along d, relative to the local lower bound                 *)
LoGhost == 0..(Delta - 1)
HiGhost == (W + Delta)..(W + 2 * Delta - 1)
LoSource == Delta..(2 * Delta - 1)
HiSource == W..(W + Delta - 1)
Slab(R, d) == {k \in 1..(Side * Side) : CPoint(k - 1, <<0, 0>>, <<Side - 1, Side - 1>>)[d] \in R}
Pack(C, p, R, d) == [k \in Slab(R, d) |-> C[p][k]]
(* a slab arrives at the other side: shift along d *)
MinR(R) == CHOOSE x \in R : \A y \in R : x <= y
Shift(m, from, to, d) ==
  [k \in Slab(to, d) |-> LET q == CPoint(k - 1, <<0, 0>>, <<Side - 1, Side - 1>>)
                         IN m[COffset([q EXCEPT ![d] = @ - MinR(to) + MinR(from)], <<0, 0>>, <<Side - 1, Side - 1>>) + 1]]
Put(C, p, m) == [C EXCEPT ![p] = [k \in 1..(Side * Side) |-> IF k \in DOMAIN m THEN m[k] ELSE @[k]]]
AddTo(C, p, m) == [C EXCEPT ![p] = [k \in 1..(Side * Side) |-> IF k \in DOMAIN m THEN @[k] + m[k] ELSE @[k]]]

(* the program: a list of [d, kind, ...] steps *)
Send(d, R, up) == [d |-> d, k |-> "send", r |-> R, up |-> up]
Recv(d, F, T, up, add) == [d |-> d, k |-> "recv", f |-> F, r |-> T, up |-> up, add |-> add]
ExProg(d) == << Send(d, HiSource, TRUE), Recv(d, HiSource, LoGhost, TRUE, FALSE),
                Send(d, LoSource, FALSE), Recv(d, LoSource, HiGhost, FALSE, FALSE) >>
AcProg(d) == << Send(d, HiSource, TRUE), Recv(d, HiSource, LoGhost, TRUE, TRUE),
                Send(d, LoGhost, FALSE), Recv(d, LoGhost, HiSource, FALSE, FALSE),
                Send(d, LoSource, FALSE), Recv(d, LoSource, HiGhost, FALSE, TRUE),
                Send(d, HiGhost, TRUE), Recv(d, HiGhost, LoSource, TRUE, FALSE) >>
Prog == IF Acc THEN AcProg(1) \o AcProg(2) ELSE ExProg(1) \o ExProg(2)

StartCells == [p \in 1..P |-> [k \in 1..(Side * Side) |-> p * 100 + k]]
MInit == /\ layout = Lay /\ cells = StartCells /\ start = StartCells
         /\ pc = [p \in 1..P |-> 1]
         /\ chan = [x \in (1..P) \X (1..P) |-> <<>>]
Step(p) ==
  LET s == Prog[pc[p]]
      to == IF s.up THEN Upper(p, s.d) ELSE Lower(p, s.d)
      fr == IF s.up THEN Lower(p, s.d) ELSE Upper(p, s.d)
  IN /\ pc[p] <= Len(Prog)
     /\ \/ /\ s.k = "send"
           /\ chan' = [chan EXCEPT ![<<p, to>>] = Append(@, Pack(cells, p, s.r, s.d))]
           /\ UNCHANGED cells
        \/ /\ s.k = "recv" /\ chan[<<fr, p>>] # <<>>
           /\ LET m == Shift(Head(chan[<<fr, p>>]), s.f, s.r, s.d)
              IN cells' = IF s.add THEN AddTo(cells, p, m) ELSE Put(cells, p, m)
           /\ chan' = [chan EXCEPT ![<<fr, p>>] = Tail(@)]
     /\ pc' = [pc EXCEPT ![p] = @ + 1]
     /\ UNCHANGED <<layout, start>>
Done == \A p \in 1..P : pc[p] > Len(Prog)
MNext == (\E p \in 1..P : pc[p] <= Len(Prog) /\ Step(p)) \/ (Done /\ UNCHANGED mvars)
MSpec == MInit /\ [][MNext]_mvars

Finished == Done => /\ \A x \in DOMAIN chan : chan[x] = <<>>
                    /\ IF Acc THEN cells = AccumulateAll(start)
                       ELSE cells = ExchangeAll(start) /\ PeriodicImage(start, cells)
Conserved == Done /\ Acc => Conserves(start, cells)
TilesKept == ~Acc => \A p \in 1..P : \A k \in 1..(Side * Side) :
   Inside(CPoint(k - 1, Procs[p].lo, Procs[p].hi), Procs[p].ilo, Procs[p].ihi) => cells[p][k] = start[p][k]
================================================================================
