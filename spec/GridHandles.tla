------------------------------ MODULE GridHandles ------------------------------
(* Grid objects as handles on shared allocations.                               *)
(* A grid copied from, or assigned from, another grid is a second handle on the *)
(* same allocation: both see one index box and one set of cells, whichever of   *)
(* them is resized or written.  Dropping or re-assigning a handle detaches it   *)
(* from the old allocation for good.                                            *)
EXTENDS Box, TLC

CONSTANTS Handle,     \* the names of grid objects in the program
          MaxAlloc    \* as many allocations as handles suffice

VARIABLES own,        \* own[g]: the allocation g refers to, 0 if g does not exist
          blk         \* blk[a]: index box and the cells with a known value

vars == <<own, blk>>

Alloc == 1..MaxAlloc
Nothing == [set |-> FALSE, lo |-> <<>>, hi |-> <<>>, val |-> <<>>]
Boxed(lo, hi) == [set |-> TRUE, lo |-> lo, hi |-> hi, val |-> <<>>]

Init == /\ own = [g \in Handle |-> 0]
        /\ blk = [a \in Alloc |-> Nothing]

Alive(g) == own[g] # 0
Fresh == CHOOSE a \in Alloc : (\A g \in Handle : own[g] # a)
                              /\ (\A b \in Alloc : b < a => \E g \in Handle : own[g] = b)
(* allocations nobody refers to any more are gone *)
Sweep(o, b) == [a \in Alloc |-> IF \E g \in Handle : o[g] = a THEN b[a] ELSE Nothing]

NewDefault(g) == /\ ~Alive(g)
                 /\ own' = [own EXCEPT ![g] = Fresh]
                 /\ blk' = [blk EXCEPT ![Fresh] = Nothing]

New(g, lo, hi) == /\ ~Alive(g)
                  /\ own' = [own EXCEPT ![g] = Fresh]
                  /\ blk' = [blk EXCEPT ![Fresh] = Boxed(lo, hi)]

Copy(g, s) == /\ ~Alive(g) /\ Alive(s)
              /\ own' = [own EXCEPT ![g] = own[s]]
              /\ UNCHANGED blk

Assign(g, s) == /\ Alive(g) /\ Alive(s)
                /\ own' = [own EXCEPT ![g] = own[s]]
                /\ blk' = Sweep(own', blk)

Destroy(g) == /\ Alive(g)
              /\ own' = [own EXCEPT ![g] = 0]
              /\ blk' = Sweep(own', blk)

(* the cells' contents after a resize are unspecified *)
Resize(g, lo, hi) == /\ Alive(g)
                     /\ blk' = [blk EXCEPT ![own[g]] = Boxed(lo, hi)]
                     /\ UNCHANGED own

ResizeLike(g, s) == /\ Alive(g) /\ Alive(s) /\ blk[own[s]].set
                    /\ Resize(g, blk[own[s]].lo, blk[own[s]].hi)

Write(g, p, v) == /\ Alive(g) /\ blk[own[g]].set
                  /\ Inside(p, blk[own[g]].lo, blk[own[g]].hi)
                  /\ blk' = [blk EXCEPT ![own[g]].val = (p :> v) @@ @]
                  /\ UNCHANGED own

Fill(g, v) == /\ Alive(g) /\ blk[own[g]].set
              /\ blk' = [blk EXCEPT ![own[g]].val =
                           [p \in Points(blk[own[g]].lo, blk[own[g]].hi) |-> v]]
              /\ UNCHANGED own

Do(a) ==
  CASE a.op = "def"    -> NewDefault(a.g)
    [] a.op = "new"    -> New(a.g, a.lo, a.hi)
    [] a.op = "copy"   -> Copy(a.g, a.s)
    [] a.op = "assign" -> Assign(a.g, a.s)
    [] a.op = "del"    -> Destroy(a.g)
    [] a.op = "resize" -> Resize(a.g, a.lo, a.hi)
    [] a.op = "like"   -> ResizeLike(a.g, a.s)
    [] a.op = "write"  -> Write(a.g, a.p, a.v)
    [] a.op = "fill"   -> Fill(a.g, a.v)
    [] OTHER           -> FALSE

--------------------------------------------------------------------------------
View(g) == IF Alive(g) THEN blk[own[g]] ELSE Nothing
Share(g, s) == Alive(g) /\ own[g] = own[s]

TypeOK == /\ own \in [Handle -> 0..MaxAlloc]
          /\ \A a \in Alloc : blk[a].set => Len(blk[a].lo) = Len(blk[a].hi)

(* no allocation outlives its last handle, and values live inside the box *)
Referenced == \A a \in Alloc : (\A g \in Handle : own[g] # a) => blk[a] = Nothing
CellsInBox == \A a \in Alloc : \A p \in DOMAIN blk[a].val : Inside(p, blk[a].lo, blk[a].hi)
(* two handles on one allocation observe the same thing *)
Coherent == \A g, s \in Handle : Share(g, s) => View(g) = View(s)
(* a step changes what g observes only if it targets g's allocation or g itself *)
Isolation == [][\A g \in Handle :
                  (View(g)' # View(g)) =>
                     \/ own'[g] # own[g]
                     \/ \A s \in Handle : Share(g, s) => (View(s)' = View(g)')]_vars
(* detached handles stay detached: only copy/assign create sharing *)
SharingIsExplicit == [][\A g, s \in Handle : (~Share(g, s) /\ Share(g, s)' /\ g # s)
                          => (own'[g] # own[g] \/ own'[s] # own[s])]_vars
================================================================================
