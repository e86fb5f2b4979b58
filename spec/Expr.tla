-------------------------------- MODULE Expr --------------------------------
(* Expressions of the setup file language: their syntax (token sequences), their    *)
(* abstract syntax trees and their values.                                          *)
(*                                                                                  *)
(* Values are typed.  Floating point values are modelled as dyadic rationals        *)
(* n * 2^-e, which the implementation represents exactly; whatever can not be       *)
(* represented that way within the bounds below is the unknown value of its type    *)
(* ("any"), about which the specification says nothing but the type.  Results of    *)
(* transcendental functions are known to 10^-6 ("mic").                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FnTable

Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
LIM == 1000000000
Fits(a, b) == a = 0 \/ Abs(b) <= LIM \div Abs(a)          \* a*b stays within the bounds
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)

IntV(n)    == [t |-> "int", n |-> n]
StrV(s)    == [t |-> "str", s |-> s]
AnyV(ty)   == [t |-> "any", ty |-> ty, may |-> FALSE]
MayV(ty)   == [t |-> "any", ty |-> ty, may |-> TRUE]     \* or an error
ErrV(why)  == [t |-> "err", why |-> why]
MicV(m)    == [t |-> "mic", m |-> m]
RECURSIVE Norm(_, _)
Norm(n, e) == IF n = 0 THEN [t |-> "flt", n |-> 0, e |-> 0]
              ELSE IF e > 0 /\ n % 2 = 0 THEN Norm(n \div 2, e - 1)
              ELSE [t |-> "flt", n |-> n, e |-> e]
EMAX == 20
FltV(n, e) == LET v == Norm(n, e) IN IF v.e > EMAX \/ Abs(v.n) > LIM THEN AnyV("flt") ELSE v

TypeOf(v) == CASE v.t = "any" -> v.ty [] v.t = "mic" -> "flt" [] OTHER -> v.t
IsErr(v)  == v.t = "err"
Known(v)  == v.t \in {"int", "flt", "str"}
May(v)    == v.t = "any" /\ v.may
Unknown(ty, may) == [t |-> "any", ty |-> ty, may |-> may]

(* -------------------------------- conversions ----------------------------------- *)
TruncDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))

IntToFlt(v) == IF v.t = "int" THEN FltV(v.n, 0) ELSE AnyV("flt")
FltToInt(v) == IF v.t = "flt" THEN IntV(Sgn(v.n) * (Abs(v.n) \div Pow2(v.e))) ELSE AnyV("int")

RECURSIVE Pad(_, _), Pow5(_), Pow10(_)
Pad(s, k) == IF Len(s) >= k THEN s ELSE Pad("0" \o s, k)
Pow5(k)  == IF k = 0 THEN 1 ELSE 5 * Pow5(k - 1)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
\* the shortest decimal representation, exact for the dyadic numbers that are used
FltStr(v) == IF v.e = 0 THEN ToString(v.n)
             ELSE LET a == Abs(v.n)
                      w == a \div Pow2(v.e)
                      f == a % Pow2(v.e)
                  IN (IF v.n < 0 THEN "-" ELSE "") \o ToString(w) \o "." \o Pad(ToString(f * Pow5(v.e)), v.e)
ToStr(v) == CASE v.t = "int" -> StrV(ToString(v.n))
              [] v.t = "flt" /\ v.e <= 8 /\ Abs(v.n) < 1000000 /\ v.n # 0 -> StrV(FltStr(v))     \* zero may be "-0"
              [] v.t = "str" -> v
              [] OTHER -> AnyV("str")

Digits == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
            CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
              [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
At(s, i) == SubSeq(s, i, i)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : At(s, i) \in DOMAIN Digits
RECURSIVE NumOf(_)
NumOf(s) == IF Len(s) = 0 THEN 0 ELSE 10 * NumOf(SubSeq(s, 1, Len(s) - 1)) + Digits[At(s, Len(s))]
Dot(s) == {i \in 1..Len(s) : At(s, i) = "."}
Unsigned(s) == IF Len(s) > 0 /\ At(s, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s
SignOf(s)   == IF Len(s) > 0 /\ At(s, 1) = "-" THEN -1 ELSE 1
StrToInt(v) ==
  IF v.t # "str" THEN MayV("int")
  ELSE LET u == Unsigned(v.s)
       IN IF ~AllDigits(u) THEN ErrV("cast") ELSE IF Len(u) > 9 THEN AnyV("int") ELSE IntV(SignOf(v.s) * NumOf(u))
StrToFlt(v) ==
  IF v.t # "str" THEN MayV("flt")
  ELSE LET u == Unsigned(v.s) IN
       IF AllDigits(u) THEN (IF Len(u) > 9 THEN AnyV("flt") ELSE FltV(SignOf(v.s) * NumOf(u), 0))
       ELSE IF Cardinality(Dot(u)) = 1
       THEN LET d == CHOOSE i \in Dot(u) : TRUE
                w == SubSeq(u, 1, d - 1)
                f == SubSeq(u, d + 1, Len(u))
            IN IF ~(AllDigits(w) /\ AllDigits(f)) THEN ErrV("cast")
               ELSE IF Len(w) + Len(f) > 9 \/ NumOf(w \o f) % Pow5(Len(f)) # 0 THEN AnyV("flt")
               ELSE FltV(SignOf(v.s) * (NumOf(w \o f) \div Pow5(Len(f))), Len(f))
       ELSE ErrV("cast")

\* the value v, converted to type ty as an assignment or a function argument does it
Convert(v, ty) ==
  IF IsErr(v) \/ TypeOf(v) = ty THEN v
  ELSE IF May(v) THEN MayV(ty)
  ELSE CASE ty = "int" /\ TypeOf(v) = "flt" -> FltToInt(v)
         [] ty = "int" /\ TypeOf(v) = "str" -> StrToInt(v)
         [] ty = "flt" /\ TypeOf(v) = "int" -> IntToFlt(v)
         [] ty = "flt" /\ TypeOf(v) = "str" -> StrToFlt(v)
         [] ty = "str" -> ToStr(v)

(* -------------------------------- operators ------------------------------------- *)
Common(a, b) == IF a = "str" \/ b = "str" THEN "str" ELSE IF a = "flt" \/ b = "flt" THEN "flt" ELSE "int"

AddF(a, b) == LET e == IF a.e > b.e THEN a.e ELSE b.e
              IN IF Fits(a.n, Pow2(e - a.e)) /\ Fits(b.n, Pow2(e - b.e)) /\ Abs(a.n * Pow2(e - a.e)) + Abs(b.n * Pow2(e - b.e)) <= LIM
                 THEN FltV(a.n * Pow2(e - a.e) + b.n * Pow2(e - b.e), e) ELSE AnyV("flt")
NegV(a) == CASE a.t = "int" -> IntV(-a.n) [] a.t = "flt" -> FltV(-a.n, a.e) [] a.t = "mic" -> MicV(-a.m)
             [] a.t = "str" -> AnyV("str") [] OTHER -> a
MulF(a, b) == IF Fits(a.n, b.n) /\ a.e + b.e <= EMAX THEN FltV(a.n * b.n, a.e + b.e) ELSE AnyV("flt")
RECURSIVE OddPart(_)
OddPart(n) == IF n % 2 = 0 THEN OddPart(n \div 2) ELSE n
DivF(a, b) == IF b.n = 0 THEN AnyV("flt")
              ELSE IF a.n = 0 THEN FltV(0, 0)
              ELSE LET o == OddPart(Abs(b.n))              \* b = sign * o * 2^k / 2^e
                       k == Abs(b.n) \div o                \* a power of two
                   IN IF a.n % o # 0 THEN AnyV("flt")
                      ELSE LET q == Sgn(b.n) * (a.n \div o)
                           IN IF Fits(q, Pow2(b.e)) /\ Fits(Pow2(a.e), k) /\ k <= Pow2(EMAX - a.e)
                              THEN LET e == CHOOSE j \in 0..30 : Pow2(j) = Pow2(a.e) * k IN FltV(q * Pow2(b.e), e)
                              ELSE AnyV("flt")
RECURSIVE IPow(_, _)
\* n^k for k >= 0, or -LIM-1 when it is out of bounds
IPow(n, k) == IF k = 0 THEN 1
              ELSE LET r == IPow(n, k - 1) IN IF Abs(r) <= LIM /\ Fits(r, n) THEN r * n ELSE -LIM - 1
PowI(a, b) == IF b.n >= 0
              THEN IF b.n > 40 /\ Abs(a.n) > 1 THEN AnyV("int")
                   ELSE LET r == IPow(a.n, IF b.n > 40 THEN 40 + (b.n % 2) ELSE b.n) IN IF Abs(r) <= LIM THEN IntV(r) ELSE AnyV("int")
              ELSE IF a.n = 0 THEN AnyV("int")
              ELSE IF Abs(a.n) = 1 THEN IntV(IPow(a.n, (-b.n) % 2)) ELSE IntV(0)
RECURSIVE PowF(_, _)
\* a float to a whole power
PowF(a, k) == IF k = 0 THEN FltV(1, 0)
              ELSE IF k > 0 THEN (LET r == PowF(a, k - 1) IN IF r.t = "flt" THEN MulF(r, a) ELSE AnyV("flt"))
              ELSE (LET r == PowF(a, k + 1) IN IF r.t = "flt" /\ a.n # 0 THEN DivF(r, a) ELSE AnyV("flt"))

Sqrts == [i \in 0..1000 |-> i * i]
HasRoot(n) == n <= 1000000 /\ \E i \in 0..1000 : Sqrts[i] = n
Root(n) == CHOOSE i \in 0..1000 : Sqrts[i] = n
\* the root of a float, if it is a float of this specification
RootF(a) == IF a.t # "flt" THEN AnyV("flt")
            ELSE IF a.n >= 0 /\ a.e % 2 = 0 /\ HasRoot(a.n) THEN FltV(Root(a.n), a.e \div 2) ELSE AnyV("flt")
RECURSIVE PowFrac(_, _, _)
\* a float to the power n / 2^e
PowFrac(a, n, e) == IF e = 0 THEN (IF Abs(n) <= 20 THEN PowF(a, n) ELSE AnyV("flt"))
                    ELSE LET r == RootF(a) IN IF r.t = "flt" THEN PowFrac(r, n, e - 1) ELSE AnyV("flt")

Binary(op, x, y) ==
  IF IsErr(x) THEN x ELSE IF IsErr(y) THEN y
  ELSE LET ty == Common(TypeOf(x), TypeOf(y))
           a == Convert(x, ty)
           b == Convert(y, ty)
       IN IF ty = "str" THEN (IF op = "+" /\ a.t = "str" /\ b.t = "str" THEN StrV(a.s \o b.s) ELSE Unknown("str", May(a) \/ May(b)))
          ELSE IF ~(Known(a) /\ Known(b))
          THEN Unknown(ty, May(a) \/ May(b) \/ (op = "/" /\ ty = "int" /\ ~(Known(b) /\ b.n # 0)))
          ELSE IF ty = "int"
          THEN CASE op = "+" -> IF Abs(a.n) + Abs(b.n) <= LIM THEN IntV(a.n + b.n) ELSE AnyV("int")
                 [] op = "-" -> IF Abs(a.n) + Abs(b.n) <= LIM THEN IntV(a.n - b.n) ELSE AnyV("int")
                 [] op = "*" -> IF Fits(a.n, b.n) THEN IntV(a.n * b.n) ELSE AnyV("int")
                 [] op = "/" -> IF b.n = 0 THEN ErrV("zero") ELSE IntV(TruncDiv(a.n, b.n))
                 [] op = "^" -> PowI(a, b)
          ELSE CASE op = "+" -> AddF(a, b)
                 [] op = "-" -> AddF(a, FltV(-b.n, b.e))
                 [] op = "*" -> MulF(a, b)
                 [] op = "/" -> DivF(a, b)
                 [] op = "^" -> IF b.e <= 2 THEN PowFrac(a, b.n, b.e) ELSE AnyV("flt")

(* -------------------------------- functions ------------------------------------- *)
LessEq(a, b) == LET d == AddF(a, FltV(-b.n, b.e)) IN d.t = "flt" /\ d.n <= 0
Sized(a, b)  == AddF(a, FltV(-b.n, b.e)).t = "flt"
Floor(a) == a.n \div Pow2(a.e)

\* parameter types of the functions known to the specification
ArgTypes(f) ==
  CASE f \in {"min", "max", "pow", "fmod", "atan2", "both"} -> <<"flt", "flt">>
    [] f \in {"minI", "maxI"} -> <<"int", "int">>
    [] f = "ldexp" -> <<"flt", "int">>
    [] f \in {"besselj", "bessely"} -> <<"int", "flt">>
    [] f = "normal" -> <<"flt", "flt", "flt">>
    [] f \in {"iota", "always"} -> <<>>
    [] f = "twice" -> <<"int">>
    [] f = "join" -> <<"str", "int">>
    [] f = "count" -> <<"flt">>
    [] OTHER -> <<"flt">>
ResType(f) == CASE f \in {"twice", "iota"} -> "int" [] f = "join" -> "str" [] OTHER -> "flt"
Functions == {"min","max","pow","fmod","atan2","minI","maxI","ldexp","besselj","bessely","normal","iota","always","twice","join",
              "count","both","floor","ceil","fabs","sqrt"} \cup TableFunctions

\* functions that are not defined for all arguments
Partial == {"gamma", "lgamma", "digamma", "besselj", "bessely"}
\* value of function f at arguments of the right types
Apply(f, a) ==
  LET known == \A i \in 1..Len(a) : Known(a[i]) IN
  IF ~known THEN Unknown(ResType(f), f \in Partial \/ \E i \in 1..Len(a) : May(a[i]))
  ELSE CASE f = "iota" -> IntV(7)
         [] f = "always" -> AnyV("flt")                   \* see Eval
         [] f = "twice" -> IF Abs(a[1].n) < LIM \div 2 THEN IntV(2 * a[1].n) ELSE AnyV("int")
         [] f = "join" -> StrV(a[1].s \o ":" \o ToString(a[2].n))
         [] f = "count" -> a[1]
         [] f = "both" -> AddF(a[1], MulF(FltV(2, 0), a[2]))
         [] f = "min" -> IF ~Sized(a[1], a[2]) THEN AnyV("flt") ELSE IF LessEq(a[1], a[2]) THEN a[1] ELSE a[2]
         [] f = "max" -> IF ~Sized(a[1], a[2]) THEN AnyV("flt") ELSE IF LessEq(a[1], a[2]) THEN a[2] ELSE a[1]
         [] f = "minI" -> FltV(IF a[1].n < a[2].n THEN a[1].n ELSE a[2].n, 0)
         [] f = "maxI" -> FltV(IF a[1].n < a[2].n THEN a[2].n ELSE a[1].n, 0)
         [] f = "floor" -> FltV(Floor(a[1]), 0)
         [] f = "ceil" -> FltV(-Floor(FltV(-a[1].n, a[1].e)), 0)
         [] f = "fabs" -> FltV(Abs(a[1].n), a[1].e)
         [] f = "pow" -> IF a[2].e <= 2 THEN PowFrac(a[1], a[2].n, a[2].e) ELSE AnyV("flt")
         [] f = "ldexp" -> IF a[2].n \in 0..8 THEN MulF(a[1], FltV(Pow2(a[2].n), 0))
                           ELSE IF a[2].n \in -8..0 THEN DivF(a[1], FltV(Pow2(-a[2].n), 0)) ELSE AnyV("flt")
         [] f = "fmod" -> IF a[1].e = 0 /\ a[2].e = 0 /\ a[2].n # 0
                          THEN FltV(Sgn(a[1].n) * (Abs(a[1].n) % Abs(a[2].n)), 0) ELSE AnyV("flt")
         [] f = "sqrt" -> RootF(a[1])
         [] OTHER -> IF <<f, a>> \in DOMAIN FnValue THEN MicV(FnValue[<<f, a>>]) ELSE Unknown("flt", f \in Partial)

(* -------------------------------- syntax ---------------------------------------- *)
(* Tokens: [k |-> "int", n], [k |-> "flt", n, e], [k |-> "str", s], [k |-> "id", s],  *)
(* and [k |-> "op", s] with s one of + - * / ^ ( ) and comma.  An identifier that is  *)
(* followed by an opening bracket is a function.                                      *)
(* The trees: [k |-> "lit", v], [k |-> "ref", s], [k |-> "neg", a],                   *)
(* [k |-> "bin", op, a, b], [k |-> "fun", f, a (a sequence)]                          *)
IsOp(ts, i, s) == i <= Len(ts) /\ ts[i].k = "op" /\ ts[i].s = s
IsOpIn(ts, i, S) == i <= Len(ts) /\ ts[i].k = "op" /\ ts[i].s \in S
Fail == [ok |-> FALSE]
Good(a, i) == [ok |-> TRUE, a |-> a, i |-> i]
Bin(op, a, b) == [k |-> "bin", op |-> op, a |-> a, b |-> b]
Neg(a) == [k |-> "neg", a |-> a]

RECURSIVE PSum(_, _), PSumRest(_, _), PTerm(_, _), PTermRest(_, _), PPow(_, _), PAtom(_, _), PArgs(_, _, _)
\* [sign] term { (+|-) term }
PSum(ts, i) ==
  LET signed == IsOpIn(ts, i, {"+", "-"})
      t == PTerm(ts, IF signed THEN i + 1 ELSE i)
  IN IF ~t.ok THEN Fail
     ELSE PSumRest(ts, Good(IF signed /\ ts[i].s = "-" THEN Neg(t.a) ELSE t.a, t.i))
PSumRest(ts, l) ==
  IF ~IsOpIn(ts, l.i, {"+", "-"}) THEN l
  ELSE LET r == PTerm(ts, l.i + 1) IN IF ~r.ok THEN Fail ELSE PSumRest(ts, Good(Bin(ts[l.i].s, l.a, r.a), r.i))
PTerm(ts, i) == LET p == PPow(ts, i) IN IF ~p.ok THEN Fail ELSE PTermRest(ts, p)
PTermRest(ts, l) ==
  IF ~IsOpIn(ts, l.i, {"*", "/"}) THEN l
  ELSE LET r == PPow(ts, l.i + 1) IN IF ~r.ok THEN Fail ELSE PTermRest(ts, Good(Bin(ts[l.i].s, l.a, r.a), r.i))
PPow(ts, i) ==
  LET b == PAtom(ts, i) IN
  IF ~b.ok THEN Fail
  ELSE IF ~IsOp(ts, b.i, "^") THEN b
  ELSE LET signed == IsOpIn(ts, b.i + 1, {"+", "-"})
           x == PAtom(ts, IF signed THEN b.i + 2 ELSE b.i + 1)
       IN IF ~x.ok THEN Fail
          ELSE Good(Bin("^", b.a, IF signed /\ ts[b.i + 1].s = "-" THEN Neg(x.a) ELSE x.a), x.i)
PAtom(ts, i) ==
  IF i > Len(ts) THEN Fail
  ELSE LET t == ts[i] IN
       CASE t.k = "int" -> Good([k |-> "lit", v |-> IntV(t.n)], i + 1)
         [] t.k = "flt" -> Good([k |-> "lit", v |-> FltV(t.n, t.e)], i + 1)
         [] t.k = "str" -> Good([k |-> "lit", v |-> StrV(t.s)], i + 1)
         [] t.k = "id" /\ IsOp(ts, i + 1, "(") -> PArgs(ts, i, <<>>)
         [] t.k = "id" /\ ~IsOp(ts, i + 1, "(") -> Good([k |-> "ref", s |-> t.s, p |-> t.p], i + 1)
         [] t.k = "op" /\ t.s = "(" -> (LET e == PSum(ts, i + 1) IN IF e.ok /\ IsOp(ts, e.i, ")") THEN Good(e.a, e.i + 1) ELSE Fail)
         [] OTHER -> Fail
\* arguments of the function at i
PArgs(ts, i, args) ==
  IF args = <<>> /\ IsOp(ts, i + 2, ")") THEN Good([k |-> "fun", f |-> ts[i].s, a |-> <<>>], i + 3)
  ELSE LET RECURSIVE Loop(_, _)
           Loop(j, as) == LET e == PSum(ts, j) IN
             IF ~e.ok THEN Fail
             ELSE IF IsOp(ts, e.i, ",") THEN Loop(e.i + 1, Append(as, e.a))
             ELSE IF IsOp(ts, e.i, ")") THEN Good([k |-> "fun", f |-> ts[i].s, a |-> Append(as, e.a)], e.i + 1)
             ELSE Fail
       IN Loop(i + 2, <<>>)
\* the tree of a complete expression
Parse(ts) == LET r == PSum(ts, 1) IN IF r.ok /\ r.i = Len(ts) + 1 THEN r ELSE Fail

(* -------------------------------- evaluation ------------------------------------ *)
\* env maps the variables (numbers in the field x of a reference) to their values; tick is what always() returns
RECURSIVE Eval(_, _, _)
Eval(a, env, tick) ==
  CASE a.k = "lit" -> a.v
    [] a.k = "ref" -> env[a.x]
    [] a.k = "neg" -> (LET v == Eval(a.a, env, tick) IN IF IsErr(v) THEN v ELSE NegV(v))
    [] a.k = "cast" -> Convert(Eval(a.a, env, tick), a.ty)
    [] a.k = "bin" -> Binary(a.op, Eval(a.a, env, tick), Eval(a.b, env, tick))
    [] a.k = "fun" -> LET tys == ArgTypes(a.f)
                          as == [i \in 1..Len(a.a) |-> Convert(Eval(a.a[i], env, tick), tys[i])]
                      IN IF \E i \in 1..Len(as) : IsErr(as[i]) THEN ErrV("arg")
                         ELSE IF a.f = "always" THEN tick ELSE Apply(a.f, as)

\* number of calls of function f when the tree is evaluated
RECURSIVE Calls(_, _), SumCalls(_, _, _)
SumCalls(as, i, f) == IF i > Len(as) THEN 0 ELSE Calls(as[i], f) + SumCalls(as, i + 1, f)
Calls(a, f) == CASE a.k \in {"lit", "ref", "ext"} -> 0
                 [] a.k \in {"neg", "cast"} -> Calls(a.a, f)
                 [] a.k = "bin" -> Calls(a.a, f) + Calls(a.b, f)
                 [] a.k = "fun" -> (IF a.f = f THEN 1 ELSE 0) + SumCalls(a.a, 1, f)

\* all references in a tree
RECURSIVE Refs(_)
Refs(a) == CASE a.k \in {"lit", "ext"} -> {}
             [] a.k = "ref" -> {a}
             [] a.k \in {"neg", "cast"} -> Refs(a.a)
             [] a.k = "bin" -> Refs(a.a) \cup Refs(a.b)
             [] a.k = "fun" -> UNION {Refs(a.a[i]) : i \in 1..Len(a.a)}
RECURSIVE Funs(_)
Funs(a) == CASE a.k \in {"lit", "ref", "ext"} -> {}
             [] a.k \in {"neg", "cast"} -> Funs(a.a)
             [] a.k = "bin" -> Funs(a.a) \cup Funs(a.b)
             [] a.k = "fun" -> {<<a.f, Len(a.a)>>} \cup UNION {Funs(a.a[i]) : i \in 1..Len(a.a)}

\* an observed value agrees with the specified one
Agrees(spec, obs) ==
  CASE spec.t = "any" -> TRUE
    [] spec.t = "mic" -> obs.t = "flt" /\ Abs(obs.mic - spec.m) <= 1
    [] spec.t = "int" -> obs.t = "int" /\ obs.n = spec.n
    [] spec.t = "flt" -> obs.t = "flt" /\ obs.exact /\ obs.n = spec.n /\ obs.e = spec.e
    [] spec.t = "str" -> obs.t = "str" /\ obs.s = spec.s
    [] OTHER -> FALSE
=============================================================================
