------------------------------ MODULE Lifecycle -----------------------------
(* The phases of a tree of blocks, call by call.                                     *)
(*                                                                                   *)
(* Blocks are put together by a program or by the parser: kids[b] are the children   *)
(* of block b in the order in which they were added.  `setup`, called on any block,   *)
(* lets it and the blocks below it declare their parameters.  `evaluate` gives them   *)
(* their values, and `initAll`, called on any block, runs all phases on the whole     *)
(* tree.  A run is a list of phases still to do and a list of blocks still to visit   *)
(* in the present phase; each call of a block's function is one step.                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par, kids, vals, lists, run
lvars == <<par, kids, vals, lists, run>>
Quiet == [todo |-> <<>>, phases |-> <<>>, from |-> 0]
LInit == par = <<>> /\ kids = <<>> /\ vals = <<>> /\ lists = <<>> /\ run = Quiet

RECURSIVE Top(_)
Top(b) == IF par[b] = 0 THEN b ELSE Top(par[b])
Idle == run = Quiet
Phases == <<"register", "preinit", "init", "postinit">>

\* a block: p its parent (0: none)
Add(p) == /\ Idle /\ p \in 0..Len(par)
          /\ par' = Append(par, p)
          /\ kids' = Append(IF p = 0 THEN kids ELSE [kids EXCEPT ![p] = Append(@, Len(par) + 1)], <<>>)
          /\ vals' = Append(vals, -1)                       \* no value yet
          /\ lists' = Append(lists, <<>>)                   \* the children of its own kind, as they reported
          /\ UNCHANGED run
Setup(b) == Idle /\ run' = [todo |-> <<b>>, phases |-> <<"setup">>, from |-> b] /\ UNCHANGED <<par, kids, vals, lists>>
\* the blocks below b, b first
RECURSIVE Below(_), BelowAll(_)
Below(b) == <<b>> \o BelowAll(kids[b])
BelowAll(s) == IF s = <<>> THEN <<>> ELSE Below(Head(s)) \o BelowAll(Tail(s))
In(s) == {s[i] : i \in 1..Len(s)}
\* parameters have their values (here: the number of the block) afterwards
Evaluated(b) == [c \in 1..Len(vals) |-> IF c \in In(Below(b)) THEN c ELSE vals[c]]
Evaluate(b) == Idle /\ vals' = Evaluated(b) /\ UNCHANGED <<par, kids, lists, run>>
InitAll(b) == Idle /\ vals' = Evaluated(Top(b)) /\ run' = [todo |-> <<Top(b)>>, phases |-> Phases, from |-> Top(b)] /\ UNCHANGED <<par, kids, lists>>
\* the next call
Call == /\ run.todo # <<>>
        /\ LET b == Head(run.todo) rest == kids[b] \o Tail(run.todo) IN
           /\ run' = IF rest # <<>> THEN [run EXCEPT !.todo = rest]
                     ELSE IF Len(run.phases) = 1 THEN Quiet
                     ELSE [run EXCEPT !.phases = Tail(@), !.todo = <<run.from>>]
           /\ lists' = IF Head(run.phases) = "preinit" /\ par[b] # 0 THEN [lists EXCEPT ![par[b]] = Append(@, b)] ELSE lists
        /\ UNCHANGED <<par, kids, vals>>
=============================================================================
