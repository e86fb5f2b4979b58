-------------------------------- MODULE Setup -------------------------------
(* A setup file as a state machine: every statement of the file is a transition.    *)
(*                                                                                  *)
(* The state S is a record                                                          *)
(*   blocks   sequence of [name, cls, parent, real]; block 1 is the root; a block   *)
(*            is real if its class has an implementation                            *)
(*   vars     sequence of [b, name, ty, par, ro, init, fixed, v, ast, m]            *)
(*            fixed variables have the value v, the others a formula ast, whose     *)
(*            value v was computed at the last update; par marks the parameters of  *)
(*            block b, whose program variable holds the value m                     *)
(*   cur      the block being read                                                  *)
(*   mode     "reading", "parsed", "ready", or "error" after an error               *)
(*   why, lines  for an error: "parser" (an error with its place, in the given      *)
(*            range of lines) or "any" (just some error)                            *)
(*   loose    the specification has lost track (a value it does not know decided    *)
(*            something): nothing is said about what follows                        *)
(*   tick     what the function always() returns                                    *)
(*   ups      the dependency updaters: [ind, dep], sets of variables                *)
(* C is the configuration: [classes, restrict, rootname, rootcls] where classes is  *)
(* a sequence of [name, real, params, kids], params a sequence of [name, ty, kind,  *)
(* has, v] with kind rw (in the file), ro (program variable), const.                *)
EXTENDS Expr

ClassOf(C, n) == IF \E i \in 1..Len(C.classes) : C.classes[i].name = n
                 THEN C.classes[CHOOSE i \in 1..Len(C.classes) : C.classes[i].name = n]
                 ELSE [name |-> n, real |-> FALSE, params |-> <<>>, kids |-> <<>>]
RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* ------------------------------ names --------------------------------------------- *)
OwnVars(S, b, n)  == {i \in 1..Len(S.vars) : S.vars[i].b = b /\ S.vars[i].name = n}
Children(S, b)    == {i \in 1..Len(S.blocks) : S.blocks[i].parent = b}
ChildNamed(S, b, n) == {i \in Children(S, b) : S.blocks[i].name = n}
Only(set) == CHOOSE x \in set : TRUE

\* path from block b downwards only; 0 if there is no such variable
RECURSIVE Down(_, _, _)
Down(S, b, p) == IF Len(p) = 1 THEN (IF OwnVars(S, b, p[1]) = {} THEN 0 ELSE Only(OwnVars(S, b, p[1])))
                 ELSE IF ChildNamed(S, b, p[1]) = {} THEN 0 ELSE Down(S, Only(ChildNamed(S, b, p[1])), Tail(p))
\* the variable that path p means in block b: the innermost enclosing block that has the
\* variable, or the child the path starts with, decides
RECURSIVE Lookup(_, _, _)
Lookup(S, b, p) == IF b = 0 THEN 0
                   ELSE IF Len(p) = 1
                   THEN (IF OwnVars(S, b, p[1]) # {} THEN Only(OwnVars(S, b, p[1])) ELSE Lookup(S, S.blocks[b].parent, p))
                   ELSE IF ChildNamed(S, b, p[1]) # {} THEN Down(S, Only(ChildNamed(S, b, p[1])), Tail(p))
                   ELSE Lookup(S, S.blocks[b].parent, p)

NoFormula == [k |-> "none"]
(* ------------------------------ expressions in context ------------------------------ *)
RECURSIVE Resolve(_, _)
Resolve(S, a) == CASE a.k \in {"lit", "ext"} -> a
                   [] a.k = "ref" -> [k |-> "ref", s |-> a.s, p |-> a.p, x |-> Lookup(S, S.cur, a.p)]
                   [] a.k = "neg" -> [k |-> "neg", a |-> Resolve(S, a.a)]
                   [] a.k = "bin" -> [k |-> "bin", op |-> a.op, a |-> Resolve(S, a.a), b |-> Resolve(S, a.b)]
                   [] a.k = "fun" -> [k |-> "fun", f |-> a.f, a |-> [i \in 1..Len(a.a) |-> Resolve(S, a.a[i])]]
RECURSIVE StaticType(_, _)
StaticType(S, a) == CASE a.k = "lit" -> a.v.t
                      [] a.k = "ref" -> S.vars[a.x].ty
                      [] a.k = "neg" -> StaticType(S, a.a)
                      [] a.k = "cast" -> a.ty
                      [] a.k = "bin" -> Common(StaticType(S, a.a), StaticType(S, a.b))
                      [] a.k = "fun" -> ResType(a.f)
Deps(a) == {r.x : r \in Refs(a)}
IsConst(S, a) == (\A x \in Deps(a) : S.vars[x].fixed) /\ (\A f \in Funs(a) : f[1] # "always")
Env(S) == [i \in 1..Len(S.vars) |-> IF S.vars[i].init THEN S.vars[i].v ELSE AnyV(S.vars[i].ty)]

\* what is wrong with an expression in the current block, and its tree
Expression(S, ts) ==
  LET r == Parse(ts) IN
  IF ~r.ok THEN [bad |-> {"parser"}, a |-> NoFormula]
  ELSE LET a == Resolve(S, r.a)
           bad == (IF 0 \in Deps(a) THEN {"parser"} ELSE {}) \cup
                  (IF \E f \in Funs(a) : f[1] \notin Functions \/ f[2] # Len(ArgTypes(f[1])) THEN {"any"} ELSE {})
       IN [bad |-> bad, a |-> a]

Fails(S, bad, e) == [S EXCEPT !.mode = "error", !.why = IF bad = {"parser"} THEN "parser" ELSE "any", !.lines = e.lines]
Loose(S) == [S EXCEPT !.loose = TRUE]

(* ------------------------------ statements ------------------------------------------ *)
NewVar(b, name, ty) == [b |-> b, name |-> name, ty |-> ty, par |-> FALSE, ro |-> FALSE, init |-> TRUE, fixed |-> TRUE,
                        v |-> AnyV(ty), ast |-> NoFormula, m |-> AnyV(ty)]
\* a variable of type ty with the value or formula a; when a is constant it is evaluated now
Given(S, var, a) == IF IsConst(S, a)
                    THEN [var EXCEPT !.fixed = TRUE, !.init = TRUE, !.ast = NoFormula, !.v = Convert(Eval(a, Env(S), S.tick), var.ty)]
                    ELSE [var EXCEPT !.fixed = FALSE, !.init = TRUE, !.v = AnyV(var.ty),
                                     !.ast = IF StaticType(S, a) = var.ty THEN a ELSE [k |-> "cast", ty |-> var.ty, a |-> a]]

\* e: [ty, items (sequence of [name, ts]), lines]
Declare(S, e) ==
  LET n  == Len(e.items)
      x  == [i \in 1..n |-> Expression(S, e.items[i].ts)]
      fine(i) == x[i].bad = {}
      vs == [i \in 1..n |-> IF fine(i) THEN Given(S, NewVar(S.cur, e.items[i].name, StaticType(S, x[i].a)), x[i].a)
                            ELSE NewVar(S.cur, e.items[i].name, e.ty)]
      bad == (UNION {x[i].bad : i \in 1..n}) \cup
             (IF \E i \in 1..n : fine(i) /\ vs[i].ty # e.ty THEN {"parser"} ELSE {}) \cup
             (IF \E i \in 1..n : OwnVars(S, S.cur, e.items[i].name) # {} \/ (\E j \in 1..n : i # j /\ e.items[i].name = e.items[j].name)
              THEN {"parser"} ELSE {}) \cup
             (IF \E i \in 1..n : vs[i].fixed /\ IsErr(vs[i].v) THEN {"any"} ELSE {})
  IN IF \E i \in 1..n : vs[i].fixed /\ May(vs[i].v) /\ fine(i) THEN Loose(S)
     ELSE IF bad # {} THEN Fails(S, bad, e)
     ELSE [S EXCEPT !.vars = @ \o vs]

\* e: [p (a path), ts, lines]
Assign(S, e) ==
  LET x == Expression(S, e.ts)
      t == Lookup(S, S.cur, e.p)
      has == x.bad = {} /\ t # 0
      nv == IF has THEN Given(S, S.vars[t], x.a) ELSE NewVar(0, "", "int")
      bad == x.bad \cup (IF t = 0 THEN {"parser"} ELSE {}) \cup (IF t # 0 /\ S.vars[t].ro THEN {"parser"} ELSE {}) \cup
             (IF has /\ nv.fixed /\ IsErr(nv.v) THEN {"any"} ELSE {})
  IN IF has /\ nv.fixed /\ May(nv.v) THEN Loose(S)
     ELSE IF bad # {} THEN Fails(S, bad, e)
     ELSE [S EXCEPT !.vars[t] = nv]

ParVar(b, q) == [b |-> b, name |-> q.name, ty |-> q.ty, par |-> TRUE, ro |-> q.kind \in {"ro", "const"},
                 init |-> q.kind \in {"ro", "const"} \/ q.has, fixed |-> q.kind # "ro", v |-> q.v,
                 ast |-> IF q.kind = "ro" THEN [k |-> "ext"] ELSE NoFormula, m |-> q.v]
WithBlock(C, S, name, cls) ==
  LET b == Len(S.blocks) + 1
      k == ClassOf(C, cls)
  IN [S EXCEPT !.blocks = Append(@, [name |-> name, cls |-> cls, parent |-> S.cur, real |-> k.real]),
               !.vars = @ \o (IF k.real THEN [i \in 1..Len(k.params) |-> ParVar(b, k.params[i])] ELSE <<>>),
               !.cur = b]
\* e: [cls, name, lines]
Open(C, S, e) ==
  IF C.restrict /\ e.cls \notin RangeOf(ClassOf(C, S.blocks[S.cur].cls).kids) THEN Fails(S, {"parser"}, e)
  ELSE IF ChildNamed(S, S.cur, e.name) # {} THEN Fails(S, {"parser"}, e)
  ELSE WithBlock(C, S, e.name, e.cls)
Close(S, e) == IF S.cur = 1 THEN Fails(S, {"parser"}, e) ELSE [S EXCEPT !.cur = S.blocks[S.cur].parent]

Start(C) == WithBlock(C, [blocks |-> <<>>, vars |-> <<>>, cur |-> 0, mode |-> "reading", why |-> "", lines |-> <<0, 0>>,
                          loose |-> FALSE, tick |-> FltV(0, 0), ups |-> <<>>], C.rootname, C.rootcls)

Statement(C, S, e) == CASE e.op = "decl" -> Declare(S, e)
                        [] e.op = "assign" -> Assign(S, e)
                        [] e.op = "open" -> Open(C, S, e)
                        [] e.op = "close" -> Close(S, e)
                        [] e.op = "junk" -> Fails(S, {"parser"}, e)         \* not a statement at all

(* ------------------------------ formulas --------------------------------------------- *)
Formulas(S) == {i \in 1..Len(S.vars) : ~S.vars[i].fixed}
DepsOf(S, i) == IF S.vars[i].fixed THEN {} ELSE Deps(S.vars[i].ast)
RECURSIVE Back(_, _)
\* everything the variables in W are computed from, W included
Back(S, W) == LET W2 == W \cup UNION {DepsOf(S, i) : i \in W} IN IF W2 = W THEN W ELSE Back(S, W2)
RECURSIVE Forth(_, _)
Forth(S, W) == LET W2 == W \cup {i \in Formulas(S) : DepsOf(S, i) \cap W # {}} IN IF W2 = W THEN W ELSE Forth(S, W2)
Cyclic(S) == \E i \in Formulas(S) : i \in Back(S, DepsOf(S, i))

ValueNow(S, env, i) == IF S.vars[i].ast.k = "ext" THEN S.vars[i].m ELSE Eval(S.vars[i].ast, env, S.tick)
RECURSIVE Recompute(_, _, _)
\* compute the formulas in U, each after those it depends on; env has the values of the others
Recompute(S, U, env) ==
  IF U = {} THEN env
  ELSE LET i == CHOOSE i \in U : DepsOf(S, i) \cap U = {}
       IN Recompute(S, U \ {i}, [env EXCEPT ![i] = ValueNow(S, env, i)])
\* an error while a formula is evaluated makes everything that follows unknown
Updated(S, U) ==
  LET env == Recompute(S, U, Env(S))
  IN IF \E i \in U : IsErr(env[i]) \/ May(env[i]) THEN Loose(S)
     ELSE [S EXCEPT !.vars = [i \in 1..Len(S.vars) |-> IF i \in U THEN [S.vars[i] EXCEPT !.v = env[i]] ELSE S.vars[i]]]

\* all formulas; one that fails leaves itself and what is computed from it open, and all the others are computed all the same
UpdateAll(S) ==
  LET U == Formulas(S)
      env == Recompute(S, U, Env(S))
      bad == Forth(S, {i \in U : IsErr(env[i]) \/ May(env[i])})
  IN IF \E i \in bad : S.vars[i].par THEN Loose(S)
     ELSE [S EXCEPT !.vars = [i \in 1..Len(S.vars) |-> IF i \in bad THEN [S.vars[i] EXCEPT !.v = MayV(S.vars[i].ty)]
                                                      ELSE IF i \in U THEN [S.vars[i] EXCEPT !.v = env[i]] ELSE S.vars[i]]]

EndOfFile(S) == IF Cyclic(S) THEN [S EXCEPT !.mode = "error", !.why = "any"]
                ELSE [UpdateAll(S) EXCEPT !.mode = "parsed"]

(* ------------------------------ initialisation --------------------------------------- *)
Missing(S) == {i \in 1..Len(S.vars) : S.vars[i].par /\ ~S.vars[i].init}
TakeOver(S, P) == [S EXCEPT !.vars = [i \in 1..Len(S.vars) |-> IF i \in P /\ ~S.vars[i].ro THEN [S.vars[i] EXCEPT !.m = S.vars[i].v] ELSE S.vars[i]]]
Params(S) == {i \in 1..Len(S.vars) : S.vars[i].par}
Initialise(S) == IF Missing(S) # {} THEN [S EXCEPT !.mode = "error", !.why = "any"]
                 ELSE [TakeOver(S, Params(S)) EXCEPT !.mode = "ready"]

(* ------------------------------ the tree of block objects ----------------------------- *)
RealOnes(S) == {i \in 1..Len(S.blocks) : S.blocks[i].real}
RECURSIVE RealAbove(_, _)
RealAbove(S, b) == IF b = 0 THEN 0 ELSE IF S.blocks[b].real THEN b ELSE RealAbove(S, S.blocks[b].parent)
RECURSIVE InOrder(_)
InOrder(set) == IF set = {} THEN <<>> ELSE LET m == CHOOSE m \in set : \A x \in set : m <= x IN <<m>> \o InOrder(set \ {m})
RealList(S) == InOrder(RealOnes(S))                  \* the objects in order of appearance
PosIn(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
Tree(S) == LET rl == RealList(S)
           IN [i \in 1..Len(rl) |-> [name |-> S.blocks[rl[i]].name, cls |-> S.blocks[rl[i]].cls,
                                     parent |-> PosIn(rl, RealAbove(S, S.blocks[rl[i]].parent))]]
\* names of the children of real block b (a number in RealList) of class c, in order
Kids(S, b, c) == LET t == Tree(S) IN SelectSeq([i \in 1..Len(t) |-> IF t[i].parent = b /\ t[i].cls = c THEN t[i].name ELSE ""], LAMBDA n : n # "")
Phases == <<"register", "preInit", "init", "postInit">>
Lifecycle(S) == LET n == Len(RealList(S))
                IN [i \in 1..4 * n |-> <<Phases[1 + (i - 1) \div n], 1 + ((i - 1) % n)>>]

(* ------------------------------ dependency updates ------------------------------------ *)
Needed(S, up) == Back(S, up.dep) \cap Formulas(S)
AlwaysOnes(S) == {i \in Formulas(S) : \E f \in Funs(S.vars[i].ast) : f[1] = "always"}
UpdateSet(S, up) == Needed(S, up) \cap Forth(S, up.ind \cup AlwaysOnes(S))
RECURSIVE SumOver(_, _, _)
SumOver(S, U, f) == IF U = {} THEN 0 ELSE LET i == CHOOSE i \in U : TRUE IN Calls(S.vars[i].ast, f) + SumOver(S, U \ {i}, f)
UpdateOne(S, k) == LET U == UpdateSet(S, S.ups[k]) IN TakeOver(Updated(S, U), S.ups[k].dep)
=============================================================================
