------------------------------- MODULE Arrays -------------------------------
(* Fixed-size arrays and element-wise arithmetic.                            *)
(* Element types: "Z" numbers modulo a prime (division is total and exact),  *)
(* "I" machine integers (division truncates), "D" floating point numbers,    *)
(* written as multiples of 1/U.                                              *)
(* An expression is a leaf [k |-> "a" or "s", ty, i] (array or scalar number *)
(* i of the statement), [k |-> "u", op, x] or [k |-> "b", op, x, y].         *)
EXTENDS Integers, Sequences
P == 10007
U == 256
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1
             ELSE LET h == Pow(x, n \div 2) s == (h * h) % P IN IF n % 2 = 1 THEN (s * x) % P ELSE s
Inverse(x) == IF x = 0 THEN 0 ELSE Pow(x, P - 2)
Abs(x) == IF x < 0 THEN -x ELSE x
Quot(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q     \* truncates
Op(ty, op, x, y) ==
  CASE ty = "Z" -> (CASE op = "+" -> (x + y) % P [] op = "-" -> (x - y) % P [] op = "*" -> (x * y) % P [] op = "/" -> (x * Inverse(y)) % P)
    [] ty = "I" -> (CASE op = "+" -> x + y [] op = "-" -> x - y [] op = "*" -> x * y [] op = "/" -> Quot(x, y))
    [] ty = "D" -> (CASE op = "+" -> x + y [] op = "-" -> x - y [] op = "*" -> Quot(x * y, U) [] op = "/" -> Quot(x * U, y))
Neg(ty, x) == IF ty = "Z" THEN (-x) % P ELSE -x
(* The type of a mixed expression holds both *)
Common(s, t) == IF s = t THEN s ELSE "D"
Cast(s, t, x) == IF s = t THEN x ELSE IF t = "D" THEN x * U ELSE Quot(x, U)
RECURSIVE Eval(_, _, _, _)
Eval(e, A, S, j) ==
  CASE e.k = "a" -> [ty |-> e.ty, v |-> A[e.i][j]]
    [] e.k = "s" -> [ty |-> e.ty, v |-> S[e.i]]
    [] e.k = "u" -> LET x == Eval(e.x, A, S, j) IN [ty |-> x.ty, v |-> IF e.op = "-" THEN Neg(x.ty, x.v) ELSE x.v]
    [] e.k = "b" -> LET x == Eval(e.x, A, S, j) y == Eval(e.y, A, S, j) t == Common(x.ty, y.ty)
                    IN [ty |-> t, v |-> Op(t, e.op, Cast(x.ty, t, x.v), Cast(y.ty, t, y.v))]
(* what an element of type t and value x becomes when e, of another type     *)
(* perhaps, is assigned to it with op ("=" or an operation)                  *)
Assigned(t, x, op, e) ==
  IF op = "=" THEN Cast(e.ty, t, e.v)
  ELSE LET c == Common(t, e.ty) IN Cast(c, t, Op(c, op, Cast(t, c, x), Cast(e.ty, c, e.v)))
(* The whole statement: every element from the values before it              *)
Assign(t, X, op, e, A, S) == [j \in DOMAIN X |-> Assigned(t, X[j], op, Eval(e, A, S, j))]
RECURSIVE Fold(_, _, _, _, _)
Fold(ty, op, X, j, acc) == IF j > Len(X) THEN acc ELSE Fold(ty, op, X, j + 1, Op(ty, op, acc, X[j]))
One(ty) == IF ty = "D" THEN U ELSE 1
Sum(ty, X) == Fold(ty, "+", X, 1, 0)
Product(ty, X) == Fold(ty, "*", X, 1, One(ty))
Squares(ty, X) == Sum(ty, [j \in DOMAIN X |-> Op(ty, "*", X[j], X[j])])
Same(X, Y) == \A j \in DOMAIN X: X[j] = Y[j]
Less(X, Y) == \A j \in DOMAIN X: X[j] < Y[j]
LessEq(X, Y) == \A j \in DOMAIN X: X[j] <= Y[j]
Without(X, d) == [j \in 1..(Len(X) - 1) |-> IF j <= d THEN X[j] ELSE X[j + 1]]        \* d counts from 0
=============================================================================
