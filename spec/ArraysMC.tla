------------------------------ MODULE ArraysMC ------------------------------
(* Laws of element-wise arithmetic, and the shapes of small expressions.     *)
EXTENDS Arrays, FiniteSets
CONSTANTS Vals, MaxLevel
Ops == {"+", "-", "*", "/"}
A(t) == [k |-> "a", ty |-> t, i |-> 1]
S(t) == [k |-> "s", ty |-> t, i |-> 1]
IsLeaf(e) == e.k \in {"a", "s"}
RECURSIVE TypeOf(_)
TypeOf(e) == IF IsLeaf(e) THEN e.ty ELSE IF e.k = "u" THEN TypeOf(e.x) ELSE Common(TypeOf(e.x), TypeOf(e.y))
RECURSIVE HasArray(_)
HasArray(e) == CASE e.k = "a" -> TRUE [] e.k = "s" -> FALSE [] e.k = "u" -> HasArray(e.x) [] e.k = "b" -> HasArray(e.x) \/ HasArray(e.y)
Leaves(T) == {A(t): t \in T} \cup {S(t): t \in T}
(* two leaves must have one type; other than "Z", only leaves divide         *)
Fits(op, x, y) == /\ HasArray(x) \/ HasArray(y)
                  /\ IsLeaf(x) /\ IsLeaf(y) => x.ty = y.ty
                  /\ op = "/" /\ TypeOf(y) # "Z" => IsLeaf(y)
Binary(X, Y) == {e \in {[k |-> "b", op |-> o, x |-> x, y |-> y]: o \in Ops, x \in X, y \in Y}: Fits(e.op, e.x, e.y)}
Unary(X) == {[k |-> "u", op |-> o, x |-> x]: o \in {"-", "+"}, x \in {z \in X: HasArray(z)}}
L0(T) == Leaves(T)
L1(T) == Binary(L0(T), L0(T)) \cup Unary(L0(T))
L2(T) == Binary(L1(T), L0(T)) \cup Binary(L0(T), L1(T)) \cup Binary(L1(T), L1(T)) \cup Unary(L1(T))
VARIABLES lev, e, x, y, z
Init == lev \in 0..MaxLevel /\ e \in (IF lev = 0 THEN {A("Z")} ELSE IF lev = 1 THEN L1({"Z"}) ELSE {A("I")})
        /\ x \in Vals /\ y \in Vals /\ z \in Vals
Next == UNCHANGED <<lev, e, x, y, z>>
Spec == Init /\ [][Next]_<<lev, e, x, y, z>>
(* Numbers modulo a prime are a field, so no rounding hides a wrong value    *)
Field == /\ Op("Z", "*", Op("Z", "/", x % P, 7), 7) = x % P
         /\ x % P # 0 => Op("Z", "/", x % P, x % P) = 1
         /\ Op("Z", "+", Op("Z", "-", x % P, y % P), y % P) = x % P
Trunc == y # 0 => LET q == Quot(x, y) r == x - q * y IN Abs(r) < Abs(y) /\ (r = 0 \/ (r < 0) = (x < 0))
(* Elements do not influence one another, whatever the expression           *)
Independent == lev = 1 => Eval(e, <<<<x, y>>>>, <<7>>, 1) = Eval(e, <<<<x, z>>>>, <<7>>, 1)
CastRound == Cast("D", "I", Cast("I", "D", x)) = x
=============================================================================
