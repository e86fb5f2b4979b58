------------------------------- MODULE SetupMC ------------------------------
(* Setup files built statement by statement from a small alphabet, and what must     *)
(* hold of every such file.  Scope picks the alphabet.                                *)
EXTENDS Setup
CONSTANTS MaxLen, Scope
VARIABLES hist, T, before       \* the statements, the state, and the state before the last one

Id(p)  == [k |-> "id", s |-> p[1], p |-> p]
Num(n) == [k |-> "int", n |-> n]
Flt    == [k |-> "flt", n |-> 3, e |-> 1]
Plus   == [k |-> "op", s |-> "+"]
IntP(n, kind, has, v) == [name |-> n, ty |-> "int", kind |-> kind, has |-> has, v |-> v]
Conf == [classes |-> << [name |-> "Alpha", real |-> TRUE, params |-> <<IntP("n", "rw", TRUE, IntV(3)), IntP("r", "ro", TRUE, IntV(6))>>, kids |-> <<"Alpha", "Beta", "Gamma">>],
                        [name |-> "Beta", real |-> TRUE, params |-> <<IntP("n", "rw", FALSE, AnyV("int")), IntP("k", "const", TRUE, IntV(8))>>, kids |-> <<"Alpha", "Gamma">>],
                        [name |-> "Gamma", real |-> FALSE, params |-> <<>>, kids |-> <<"Beta">>] >>,
         restrict |-> TRUE, rootname |-> "app", rootcls |-> "Alpha"]

Decl(ty, name, ts) == [op |-> "decl", ty |-> ty, items |-> <<[name |-> name, ts |-> ts]>>, lines |-> <<1, 1>>]
Asgn(p, ts)        == [op |-> "assign", p |-> p, ts |-> ts, lines |-> <<1, 1>>]
Opn(cls, name)     == [op |-> "open", cls |-> cls, name |-> name, lines |-> <<1, 1>>]
Cls                == [op |-> "close", lines |-> <<1, 1>>]
\* names of new blocks: a counter, so that the only clashes are the wanted ones
Blk == IF Scope = "blocks" THEN {Opn(c, "b" \o ToString(Len(hist))) : c \in {"Alpha", "Beta", "Gamma"}} \cup {Opn("Beta", "b0"), Cls}
       ELSE {Opn("Alpha", "p"), Opn("Beta", "p"), Opn("Gamma", "q"), Cls}
Names == {Decl("int", "v", <<Num(1)>>), Decl("int", "v", <<Id(<<"r">>)>>), Decl("int", "v", <<Id(<<"n">>), Plus, Num(1)>>), Decl("int", "w", <<Id(<<"p", "v">>)>>),
          Decl("int", "v", <<Flt>>), Decl("int", "n", <<Num(4)>>), Decl("flt", "r", <<Flt>>),
          Asgn(<<"v">>, <<Num(2)>>), Asgn(<<"n">>, <<Num(4)>>), Asgn(<<"n">>, <<Id(<<"v">>)>>), Asgn(<<"v">>, <<Id(<<"n">>), Plus, Id(<<"v">>)>>),
          Asgn(<<"r">>, <<Num(2)>>), Asgn(<<"p", "n">>, <<Num(7)>>), Asgn(<<"v">>, <<Flt>>), Asgn(<<"p", "v">>, <<Id(<<"w">>)>>)}
Few == {Decl("int", "v", <<Num(1)>>), Decl("int", "v", <<Id(<<"r">>)>>), Asgn(<<"v">>, <<Num(2)>>), Asgn(<<"n">>, <<Id(<<"v">>)>>), Asgn(<<"p", "n">>, <<Num(7)>>), Asgn(<<"v">>, <<Id(<<"v">>)>>)}
Statements == CASE Scope = "blocks" -> Blk [] Scope = "names" -> Blk \cup Names [] Scope = "few" -> Blk \cup Few

Init == hist = <<>> /\ T = Start(Conf) /\ before = T
Next == /\ T.mode = "reading" /\ ~T.loose /\ Len(hist) < MaxLen
        /\ \E e \in Statements : hist' = Append(hist, e) /\ T' = Statement(Conf, T, e) /\ before' = T
Spec == Init /\ [][Next]_<<hist, T, before>>

(* ---------------- what holds of every file ---------------- *)
Count(P(_)) == Cardinality({i \in 1..Len(hist) : P(hist[i])})
RECURSIVE Above(_, _)
Above(X, b) == IF b = 0 THEN <<>> ELSE <<b>> \o Above(X, X.blocks[b].parent)     \* b and the enclosing blocks, from inside out
\* a plain name means the declaration in the innermost enclosing block that has one
Innermost == \A b \in 1..Len(T.blocks), n \in {"v", "n", "r", "k", "w", "zz"} :
               LET up == Above(T, b)
                   has == {i \in 1..Len(up) : \E j \in 1..Len(T.vars) : T.vars[j].b = up[i] /\ T.vars[j].name = n}
                   x == Lookup(T, b, <<n>>)
               IN IF has = {} THEN x = 0
                  ELSE LET m == CHOOSE m \in has : \A k \in has : m <= k IN x # 0 /\ T.vars[x].b = up[m] /\ T.vars[x].name = n
OncePerBlock == \A i, j \in 1..Len(T.vars) : i # j => <<T.vars[i].b, T.vars[i].name>> # <<T.vars[j].b, T.vars[j].name>>
BlocksAsWritten == T.mode # "error" => Len(T.blocks) = 1 + Count(LAMBDA e : e.op = "open")
UniqueNames == \A i, j \in 2..Len(T.blocks) : i # j /\ T.blocks[i].parent = T.blocks[j].parent => T.blocks[i].name # T.blocks[j].name
Allowed == \A i \in 2..Len(T.blocks) : T.blocks[i].cls \in RangeOf(ClassOf(Conf, T.blocks[T.blocks[i].parent].cls).kids)
\* what was there stays: blocks, variables and their types, and read-only variables entirely
Preserved == /\ SubSeq(T.blocks, 1, Len(before.blocks)) = before.blocks
             /\ Len(T.vars) >= Len(before.vars)
             /\ \A i \in 1..Len(before.vars) : LET o == before.vars[i] n == T.vars[i] IN
                  /\ o.b = n.b /\ o.name = n.name /\ o.ty = n.ty /\ o.par = n.par /\ o.ro = n.ro /\ (o.ro => o = n)
\* a statement changes at most one variable, and a failing one none
OneAtATime == /\ Cardinality({i \in 1..Len(before.vars) : before.vars[i] # T.vars[i]}) <= 1
              /\ (T.mode = "error" => T.vars = before.vars /\ T.blocks = before.blocks)
TypesKept == \A i \in 1..Len(T.vars) : LET v == T.vars[i] IN
               /\ (v.fixed /\ v.init => TypeOf(v.v) = v.ty)
               /\ (~v.fixed /\ v.ast.k # "ext" => StaticType(T, v.ast) = v.ty /\ \A x \in Deps(v.ast) : x \in 1..Len(T.vars))
\* the life of the blocks: every phase once per object, phases one after the other, parents first
LifeOk == LET L == Lifecycle(T) n == Len(RealList(T)) tr == Tree(T) IN
          /\ Len(L) = 4 * n
          /\ \A b \in 1..n, p \in 1..4 : Cardinality({i \in 1..Len(L) : L[i] = <<Phases[p], b>>}) = 1
          /\ \A i, j \in 1..Len(L) : i < j => LET pi == CHOOSE p \in 1..4 : Phases[p] = L[i][1] pj == CHOOSE p \in 1..4 : Phases[p] = L[j][1]
                                              IN pi <= pj /\ (pi = pj => tr[L[j][2]].parent <= L[i][2] \/ tr[L[j][2]].parent < L[j][2])
          /\ \A b \in 1..n : tr[b].parent < b
\* at the end of the file every formula has the value of its tree at the current values
Ended == LET E == EndOfFile(T) IN
         T.mode = "reading" /\ ~T.loose /\ E.mode = "parsed" /\ ~E.loose =>
           \A i \in Formulas(E) : E.vars[i].ast.k = "ext" \/ E.vars[i].v = Eval(E.vars[i].ast, Env(E), E.tick)
Restart == LET E == Initialise(EndOfFile(T)) IN
         T.mode = "reading" /\ ~T.loose /\ ~Cyclic(T) /\ E.mode = "ready" => \A i \in Params(E) : E.vars[i].m = E.vars[i].v
=============================================================================
