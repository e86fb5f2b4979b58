----------------------------- MODULE SharedData -----------------------------
(* Data that blocks share by name.                                                  *)
(* T: sequence of [name, parent] (parent 0: a root; parents come before children).   *)
(* D: sequence of registrations [b, key, ty, x], the latest last; a key is a         *)
(* sequence of parts ("a.x" is <<"a", "x">>).                                        *)
EXTENDS Integers, Sequences, FiniteSets
None == [r |-> "none", x |-> 0]
Dup  == [r |-> "dup", x |-> 0]
Hit(x) == [r |-> "ok", x |-> x]

Own(D, b, key, ty) == LET s == {i \in 1..Len(D) : D[i].b = b /\ D[i].key = key /\ D[i].ty = ty}
                      IN IF s = {} THEN None ELSE Hit(D[CHOOSE i \in s : \A j \in s : j <= i].x)
Kids(T, b) == {i \in 1..Len(T) : T[i].parent = b}
\* several answers: exactly one must be found
Join(A) == IF \E a \in A : a[2].r = "dup" THEN Dup
           ELSE LET f == {a \in A : a[2].r = "ok"} IN
                IF f = {} THEN None ELSE IF Cardinality(f) > 1 THEN Dup ELSE (CHOOSE a \in f : TRUE)[2]
RECURSIVE Get(_, _, _, _, _, _)
Get(T, D, b, key, ty, up) ==
  LET own == Own(D, b, key, ty)
      named == IF Len(key) < 2 THEN {} ELSE {k \in Kids(T, b) : T[k].name = key[1]}
      dotted == Join({<<k, Get(T, D, k, Tail(key), ty, FALSE)>> : k \in named})
  IN IF own.r = "ok" THEN own
     ELSE IF named # {} /\ dotted.r # "none" THEN dotted
     ELSE IF up /\ T[b].parent # 0 THEN Get(T, D, T[b].parent, key, ty, TRUE)
     ELSE Join({<<k, Get(T, D, k, key, ty, FALSE)>> : k \in Kids(T, b)})
Retrieve(T, D, b, key, ty) == Get(T, D, b, key, ty, TRUE)

RECURSIVE Top(_, _)
Top(T, b) == IF T[b].parent = 0 THEN b ELSE Top(T, T[b].parent)
RECURSIVE Up(_, _)
Up(T, b) == IF b = 0 THEN <<>> ELSE <<b>> \o Up(T, T[b].parent)
=============================================================================
