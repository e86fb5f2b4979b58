------------------------------ MODULE SetupTrace ----------------------------
(* Checks what the real parser, block tree and updaters did with a setup file        *)
(* against Setup.  The statements of the file are events of the trace; "parsed",      *)
(* "inited" and so on carry what was observed.                                       *)
EXTENDS Setup, Json, IOUtils
VARIABLES h, l, S
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
C == Hist[h].conf

VarAt(T, q) == Lookup(T, q[1], q[2])                     \* q: [block, path]
SameVars(T, obs) ==                                      \* every variable of every block, as stored
  /\ Len(obs) = Len(T.blocks)
  /\ \A b \in 1..Len(T.blocks) :
       LET mine == {i \in 1..Len(T.vars) : T.vars[i].b = b}
           o == obs[b]
       IN /\ o.name = T.blocks[b].name /\ o.cls = T.blocks[b].cls /\ o.parent = T.blocks[b].parent
          /\ Len(o.vars) = Cardinality(mine)
          /\ \A j \in 1..Len(o.vars) : \E i \in mine :
               LET v == T.vars[i] w == o.vars[j] IN
               /\ v.name = w.name /\ v.ty = w.ty /\ v.fixed = w.fixed /\ v.ro = w.ro /\ v.init = w.init
               /\ (v.init => Agrees(v.v, w.v))
SameParams(T, obs) ==                                    \* the program's own variables, per block object
  LET rl == RealList(T) IN
  /\ Len(obs) = Len(rl)
  /\ \A k \in 1..Len(rl) :
       LET ps == InOrder({i \in 1..Len(T.vars) : T.vars[i].b = rl[k] /\ T.vars[i].par})
       IN /\ Len(obs[k]) = Len(ps)
          /\ \A j \in 1..Len(ps) : LET v == T.vars[ps[j]] IN v.name = obs[k][j].name /\ Agrees(v.m, obs[k][j].v)

Stimulus == {"decl", "assign", "open", "close", "junk"}
Do(e) ==
  IF e.op = "CRASH" THEN FALSE
  ELSE IF S.loose THEN UNCHANGED S
  ELSE CASE e.op \in Stimulus -> S' = IF S.mode = "reading" THEN Statement(C, S, e) ELSE S
    [] e.op = "parsed" ->
         LET T == IF S.mode = "reading" THEN EndOfFile(S) ELSE S IN
         /\ S' = T
         /\ (T.loose \/
             IF T.mode = "error"
             THEN /\ e.res # "ok"
                  /\ (T.why = "parser" => e.res = "parser" /\ e.line >= T.lines[1] /\ e.line <= T.lines[2] /\ e.file = Hist[h].file /\ e.msg)
             ELSE /\ e.res = "ok"
                  /\ e.tree = Tree(T)
                  /\ e.made = [i \in 1..Len(Tree(T)) |-> Tree(T)[i].name]
                  /\ SameVars(T, e.vars))
    [] e.op = "look" -> /\ UNCHANGED S                  \* a name looked up from a block
                        /\ LET i == Lookup(S, e.b, e.p) IN
                           /\ e.exists = (i # 0)
                           /\ IF i = 0 THEN e.found = <<0, "">> ELSE e.found = <<S.vars[i].b, S.vars[i].name>>
    [] e.op = "inited" ->
         LET T == Initialise(S) IN
         /\ S' = T
         /\ IF T.mode = "error" THEN e.res # "ok" /\ e.res # "parser" /\ e.life = <<>>
            ELSE /\ e.res = "ok"
                 /\ e.life = Lifecycle(T)
                 /\ SameParams(T, e.early)
                 /\ SameParams(T, e.params)
                 /\ \A k \in 1..Len(e.kids) : \A j \in 1..Len(e.kids[k]) :
                       e.kids[k][j].names = Kids(T, k, e.kids[k][j].cls) /\ e.kids[k][j].num = Len(Kids(T, k, e.kids[k][j].cls))
    [] e.op = "set" -> S' = [S EXCEPT !.vars[VarAt(S, e.q)].m = e.v]
    [] e.op = "tick" -> S' = [S EXCEPT !.tick = FltV(e.n, 0)]
    [] e.op = "updater" -> S' = [S EXCEPT !.ups = Append(@, [ind |-> {VarAt(S, q) : q \in RangeOf(e.ind)},
                                                            dep |-> {VarAt(S, q) : q \in RangeOf(e.dep)}])]
    [] e.op = "depend" -> S' = [S EXCEPT !.ups[e.k].dep = (IF e.clear THEN {} ELSE @) \cup {VarAt(S, q) : q \in RangeOf(e.dep)},
                                         !.ups[e.k].ind = @ \cup {VarAt(S, q) : q \in RangeOf(e.ind)}]
    [] e.op = "update" ->
         LET T == UpdateOne(S, e.k) IN
         /\ S' = T
         /\ (T.loose \/ (/\ e.res = "ok" /\ SameParams(T, e.params) /\ SameVars(T, e.vars)
                         /\ e.calls = SumOver(T, UpdateSet(S, S.ups[e.k]), "count")))
    [] e.op = "all" -> LET T == UpdateAll(S) IN S' = T /\ (T.loose \/ (e.res = "ok" /\ SameVars(T, e.vars)))
    [] e.op = "group" -> /\ UNCHANGED S                 \* which variables are outside a group
                         /\ LET g == {VarAt(S, q) : q \in RangeOf(e.g)} ids == {VarAt(S, q) : q \in RangeOf(e.ids)} IN
                            /\ e.within = (ids \subseteq g)
                            /\ {VarAt(S, q) : q \in RangeOf(e.rest)} = ids \ g
                            /\ \A i \in 1..Len(e.ids) : e.isin[i] = (VarAt(S, e.ids[i]) \in g)

TInit == h \in 1..Len(Hist) /\ l = 0 /\ S = Start(C)
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l, S>>
TSpec == TInit /\ [][TNext]_<<h, l, S>>
=============================================================================
