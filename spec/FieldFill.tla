------------------------------ MODULE FieldFill -----------------------------
(* Filling fields from formulas of the setup file.                                  *)
(*                                                                                  *)
(* A program registers arrays of coordinates (read only in the setup file) and       *)
(* parameters; the setup file gives formulas for the parameters, directly or by      *)
(* way of variables of its own.  Updaters know which parameters to evaluate.         *)
(* Filling a field from a parameter puts into each of its cells, ghost cells         *)
(* included, the value the parameter's formula has at the position of that cell.     *)
(*                                                                                  *)
(* conf: nc (number of coordinates per array), defs (sequence of [ty, ts], later      *)
(* definitions may refer to earlier ones), ups (array used by each updater), fields   *)
(* (geometry and element type).  References in tokens are numbers: first the          *)
(* coordinates of all arrays, then the definitions.                                   *)
EXTENDS Expr, Box
RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
NumCoords(c) == SumTo(c.nc, Len(c.nc))
CoordIx(c, a, d) == SumTo(c.nc, a - 1) + d

RECURSIVE Resolved(_)                                      \* references by number
Resolved(a) == CASE a.k = "lit" -> a
                 [] a.k = "ref" -> [k |-> "ref", x |-> a.p]
                 [] a.k = "neg" -> [a EXCEPT !.a = Resolved(a.a)]
                 [] a.k = "bin" -> [a EXCEPT !.a = Resolved(a.a), !.b = Resolved(a.b)]
                 [] a.k = "fun" -> [a EXCEPT !.a = [i \in 1..Len(a.a) |-> Resolved(a.a[i])]]
Tree(ts) == Resolved(Parse(ts).a)

\* values of all definitions, given the coordinates
RECURSIVE Values(_, _, _, _, _, _)
Values(env, trees, defs, needed, i, last) ==
  IF i > last THEN env
  ELSE Values(Append(env, IF i \in needed THEN Convert(Eval(trees[i], env, AnyV("flt")), defs[i].ty) ELSE AnyV(defs[i].ty)), trees, defs, needed, i + 1, last)
\* the definitions that definition p is made of, itself included
RECURSIVE Needed(_, _, _)
Needed(n, trees, p) == {p} \cup UNION {Needed(n, trees, q.x - n) : q \in {q \in Refs(trees[p]) : q.x > n}}

\* the definitions that depend on coordinates, directly or indirectly
RECURSIVE Movers(_, _, _, _)
Movers(n, trees, i, S) ==
  IF i > Len(trees) THEN S
  ELSE Movers(n, trees, i + 1, IF \E q \in Refs(trees[i]) : q.x <= n \/ q.x \in S THEN S \cup {n + i} ELSE S)

GLo(g) == [d \in 1..Len(g.lo) |-> g.lo[d] - g.gh]
GHi(g) == [d \in 1..Len(g.lo) |-> g.hi[d] + g.gh]
\* where cell i of dimension d lies, in units of 2^-e
Pos(g, d, i) == g.plo[d] + (i - g.lo[d]) * g.w[d] + (IF g.st[d] THEN g.w[d] \div 2 ELSE 0)
At3(g, d, i) == FltV(Pos(g, d, i), g.e[d])

\* the cells of a field are numbered in row major order
NumCells(g) == CellCount(GLo(g), GHi(g))
CellNo(g, k) == CPoint(k - 1, GLo(g), GHi(g))

Fresh(c) == LET trees == [i \in 1..Len(c.defs) |-> Tree(c.defs[i].ts)] n == NumCoords(c) IN
            [trees |-> trees,
             needs |-> [i \in 1..Len(c.defs) |-> Needed(n, trees, i)],
             moves |-> Movers(n, trees, 1, {}),
             mem |-> [i \in 1..NumCoords(c) |-> AnyV("flt")],
             deps |-> [u \in 1..Len(c.ups) |-> {}],
             fillers |-> [m \in 1..c.nf |-> <<>>],
             data |-> [f \in 1..Len(c.fields) |-> [k \in 1..NumCells(c.fields[f]) |-> c.fields[f].start]]]

\* one field filled from the parameter that is definition p, with updater u
Fill(c, S, f, p, u) ==
  LET g == c.fields[f]
      n == NumCoords(c)
      a == c.ups[u]
      mine == {CoordIx(c, a, d) : d \in 1..Len(g.lo)}
      dim(i) == i - CoordIx(c, a, 0)
      where == [d \in 1..Len(g.lo) |-> [i \in GLo(g)[d]..GHi(g)[d] |-> At3(g, d, i)]]
      value(q) == LET env == [i \in 1..n |-> IF i \in mine THEN where[dim(i)][q[dim(i)]] ELSE S.mem[i]]
                  IN Values(env, S.trees, c.defs, S.needs[p], 1, p)[n + p]
      known == p \in S.deps[u] \/ (n + p) \notin S.moves
  IN [S EXCEPT !.data[f] = [k \in DOMAIN @ |-> IF known THEN value(CellNo(g, k)) ELSE AnyV(g.ty)],
               !.mem = [i \in 1..n |-> IF i \in mine THEN AnyV("flt") ELSE @[i]]]
RECURSIVE FillAll(_, _, _, _)
FillAll(c, S, todo, i) == IF i > Len(todo) THEN S ELSE FillAll(c, Fill(c, S, todo[i].f, todo[i].p, todo[i].u), todo, i + 1)

\* what operation e does
Did(c, S, e) ==
  CASE e.op = "put" -> [S EXCEPT !.mem[CoordIx(c, e.a, e.d)] = e.v]                      \* the program moves a coordinate
    [] e.op = "depend" -> [S EXCEPT !.deps[e.u] = @ \cup {e.p}]
    [] e.op = "fill" -> LET T == IF e.own THEN [S EXCEPT !.deps[e.u] = {e.p}] ELSE S IN Fill(c, T, e.f, e.p, e.u)
    [] e.op = "set" -> [S EXCEPT !.fillers[e.n] = @ \o [i \in 1..Len(e.items) |-> [f |-> e.items[i].f, p |-> e.items[i].p, u |-> e.u]]]
    [] e.op = "clear" -> [S EXCEPT !.fillers[e.n] = <<>>]
    [] e.op = "run" -> FillAll(c, S, S.fillers[e.n], 1)
=============================================================================
