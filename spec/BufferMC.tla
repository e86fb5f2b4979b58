-------------------------------- MODULE BufferMC --------------------------------
(* exchangeData on a ring of P processes: first the length, then that many bytes, *)
(* through channels with arbitrary interleaving. Two rounds without a barrier.    *)
EXTENDS Integers, Sequences
CONSTANTS P, MaxLen
VARIABLES len, pc, sizes, bytes, got, expect
mvars == <<len, pc, sizes, bytes, got, expect>>
Next1(p) == (p % P) + 1
Prev1(p) == ((p - 2 + P) % P) + 1
Msg(p, n, rnd) == [i \in 1..n |-> p * 10 + rnd]
MInit == /\ len \in [1..P -> [1..2 -> 0..MaxLen]]
         /\ pc = [p \in 1..P |-> 1] /\ sizes = [p \in 1..P |-> <<>>] /\ bytes = [p \in 1..P |-> <<>>]
         /\ got = [p \in 1..P |-> <<>>] /\ expect = [p \in 1..P |-> 0]
(* per round: 1 send size, 2 receive size, 3 send bytes, 4 receive bytes; the channels lead to process p *)
Rnd(p) == ((pc[p] - 1) \div 4) + 1
Step(p) ==
  LET s == ((pc[p] - 1) % 4) + 1 r == Rnd(p) q == Next1(p) IN
  /\ pc[p] <= 8
  /\ \/ s = 1 /\ sizes' = [sizes EXCEPT ![q] = Append(@, len[p][r])] /\ UNCHANGED <<bytes, got, expect>>
     \/ s = 2 /\ sizes[p] # <<>> /\ expect' = [expect EXCEPT ![p] = Head(sizes[p])]
        /\ sizes' = [sizes EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<bytes, got>>
     \/ s = 3 /\ bytes' = [bytes EXCEPT ![q] = Append(@, Msg(p, len[p][r], r))] /\ UNCHANGED <<sizes, got, expect>>
     \/ s = 4 /\ bytes[p] # <<>> /\ got' = [got EXCEPT ![p] = Append(@, Head(bytes[p]))]
        /\ bytes' = [bytes EXCEPT ![p] = Tail(@)] /\ UNCHANGED <<sizes, expect>>
  /\ pc' = [pc EXCEPT ![p] = @ + 1] /\ UNCHANGED len
Done == \A p \in 1..P : pc[p] > 8
MNext == (\E p \in 1..P : Step(p)) \/ (Done /\ UNCHANGED mvars)
MSpec == MInit /\ [][MNext]_mvars
SizesMatch == \A p \in 1..P : ((pc[p] - 1) % 4) + 1 = 4 /\ bytes[p] # <<>> => Len(Head(bytes[p])) = expect[p]
Delivered == Done => \A p \in 1..P : got[p] = << Msg(Prev1(p), len[Prev1(p)][1], 1), Msg(Prev1(p), len[Prev1(p)][2], 2) >>
================================================================================
