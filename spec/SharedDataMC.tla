---------------------------- MODULE SharedDataMC ----------------------------
(* What the lookup of shared data guarantees, on all small trees and registrations. *)
EXTENDS SharedData
CONSTANTS MaxBlocks, MaxData
VARIABLES T, D
Keys == {<<"x">>, <<"y">>, <<"a", "x">>}
Types == {"int", "dbl"}
Init == T = <<[name |-> "app", parent |-> 0]>> /\ D = <<>>
AddBlock == /\ D = <<>> /\ Len(T) < MaxBlocks
            /\ \E p \in 0..Len(T), n \in {"a", "b"} : T' = Append(T, [name |-> n, parent |-> p])
            /\ UNCHANGED D
AddData == /\ Len(D) < MaxData
           /\ \E b \in 1..Len(T), k \in {<<"x">>, <<"y">>}, t \in Types : D' = Append(D, [b |-> b, key |-> k, ty |-> t, x |-> Len(D) + 1])
           /\ UNCHANGED T
Next == AddBlock \/ AddData
Spec == Init /\ [][Next]_<<T, D>>

Suffix(k, q) == Len(k) <= Len(q) /\ SubSeq(q, Len(q) - Len(k) + 1, Len(q)) = k
All(P(_, _, _)) == \A b \in 1..Len(T), k \in Keys, t \in Types : P(b, k, t)
Live(i) == \A j \in (i + 1)..Len(D) : ~(D[j].b = D[i].b /\ D[j].key = D[i].key /\ D[j].ty = D[i].ty)
\* what is found was registered under that name and type, in the same tree, and not replaced since
Honest == All(LAMBDA b, k, t : LET r == Retrieve(T, D, b, k, t) IN
            r.r = "ok" => \E i \in 1..Len(D) : D[i].x = r.x /\ Live(i) /\ D[i].ty = t /\ Suffix(D[i].key, k) /\ Top(T, D[i].b) = Top(T, b))
\* a plain name registered in the block or an enclosing one: the innermost
Innermost == All(LAMBDA b, k, t : Len(k) = 1 =>
               LET up == Up(T, b) has == {n \in 1..Len(up) : Own(D, up[n], k, t).r = "ok"} IN
               has # {} => Retrieve(T, D, b, k, t) = Own(D, up[CHOOSE n \in has : \A m \in has : n <= m], k, t))
\* registered once in the tree: found from everywhere in it
FromEverywhere == All(LAMBDA b, k, t : Len(k) = 1 =>
                    LET s == {i \in 1..Len(D) : Live(i) /\ D[i].key = k /\ D[i].ty = t /\ Top(T, D[i].b) = Top(T, b)} IN
                    /\ (Cardinality(s) = 1 => Retrieve(T, D, b, k, t) = Hit(D[CHOOSE i \in s : TRUE].x))
                    /\ (s = {} => Retrieve(T, D, b, k, t) = None)
                    /\ (Retrieve(T, D, b, k, t) = Dup => Cardinality(s) > 1))
\* a.x names the x of the (only) child a of an enclosing block
Dotted == All(LAMBDA b, k, t : Len(k) = 2 =>
            LET s == {c \in 1..Len(T) : T[c].name = k[1] /\ T[c].parent \in {Up(T, b)[n] : n \in 1..Len(Up(T, b))} /\ Own(D, c, Tail(k), t).r = "ok"}
                under == {c \in 1..Len(T) : T[c].name = k[1]} IN
            Cardinality(under) = 1 /\ Cardinality(s) = 1 => Retrieve(T, D, b, k, t) = Own(D, CHOOSE c \in s : TRUE, Tail(k), t))
=============================================================================
