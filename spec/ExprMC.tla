------------------------------- MODULE ExprMC -------------------------------
(* An operator precedence machine that reads an expression token by token and keeps  *)
(* a stack of values and a stack of pending operators.  On every expression it has    *)
(* the value of the tree that the grammar in Expr gives.                              *)
EXTENDS Expr
CONSTANTS MaxLen, Wide
VARIABLES ts, vals, ops, want, fresh, open

Operands == {[k |-> "int", n |-> 2], [k |-> "flt", n |-> 3, e |-> 1]} \cup
            (IF Wide THEN {[k |-> "int", n |-> 7], [k |-> "str", s |-> "12"]} ELSE {})
OpT(s) == [k |-> "op", s |-> s]
\* pending operators: binary ones, "neg" for a leading sign, "pow-" for the sign of an exponent, "("
Prec(o) == CASE o \in {"+", "-", "neg"} -> 1 [] o \in {"*", "/"} -> 2 [] o = "^" -> 3 [] o = "pow-" -> 4 [] OTHER -> 0
Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)

Reduce(v, o) == IF o \in {"neg", "pow-"}
                THEN Append(Pop(v), IF IsErr(Top(v)) THEN Top(v) ELSE NegV(Top(v)))
                ELSE Append(Pop(Pop(v)), Binary(o, Top(Pop(v)), Top(v)))
RECURSIVE Unwind(_, _, _)
\* apply the pending operators that bind at least as tightly as p
Unwind(v, o, p) == IF o = <<>> \/ Top(o) = "(" \/ Prec(Top(o)) < p THEN [v |-> v, o |-> o]
                   ELSE Unwind(Reduce(v, Top(o)), Pop(o), p)

Init == ts = <<>> /\ vals = <<>> /\ ops = <<>> /\ want = "operand" /\ fresh = TRUE /\ open = 0
Operand == /\ want = "operand"
           /\ \E t \in Operands : /\ ts' = Append(ts, t)
                                  /\ vals' = Append(vals, IF t.k = "int" THEN IntV(t.n) ELSE IF t.k = "flt" THEN FltV(t.n, t.e) ELSE StrV(t.s))
           /\ want' = "operator" /\ fresh' = FALSE /\ UNCHANGED <<ops, open>>
AfterPower == ts # <<>> /\ Top(ts) = OpT("^")
Sign == /\ want = "operand" /\ (fresh \/ AfterPower)
        /\ ts' = Append(ts, OpT("-")) /\ ops' = Append(ops, IF fresh THEN "neg" ELSE "pow-")
        /\ fresh' = FALSE /\ UNCHANGED <<vals, want, open>>
LeftBracket == /\ want = "operand"
               /\ ts' = Append(ts, OpT("(")) /\ ops' = Append(ops, "(") /\ open' = open + 1 /\ fresh' = TRUE /\ UNCHANGED <<vals, want>>
RightBracket == /\ want = "operator" /\ open > 0
                /\ LET u == Unwind(vals, ops, 0) IN vals' = u.v /\ ops' = Pop(u.o)
                /\ ts' = Append(ts, OpT(")")) /\ open' = open - 1 /\ UNCHANGED <<want, fresh>>
Operator == /\ want = "operator"
            /\ \E o \in {"+", "-", "*", "/", "^"} :
                 LET u == Unwind(vals, ops, Prec(o)) IN
                 /\ ~(o = "^" /\ (IF ops = <<>> THEN FALSE ELSE Top(ops) \in {"^", "pow-"}))         \* a^b^c is not in the language
                 /\ vals' = u.v /\ ops' = Append(u.o, o) /\ ts' = Append(ts, OpT(o))
            /\ want' = "operand" /\ fresh' = FALSE /\ UNCHANGED open
Next == Len(ts) < MaxLen /\ (Operand \/ Sign \/ LeftBracket \/ RightBracket \/ Operator)
Spec == Init /\ [][Next]_<<ts, vals, ops, want, fresh, open>>

Complete == want = "operator" /\ open = 0
SameValue == Complete => LET u == Unwind(vals, ops, 0) p == Parse(ts) IN
                         p.ok /\ u.o = <<>> /\ Len(u.v) = 1 /\ u.v[1] = Eval(p.a, <<>>, AnyV("flt"))
NothingElse == ~Complete => ~Parse(ts).ok
=============================================================================
