----------------------------- MODULE LiteratureMC ---------------------------
EXTENDS Literature
CONSTANT MaxLen
VARIABLES M, refs, hist
vars == <<M, refs, hist>>
Keys == {"A", "B", "Schmitz2018"}
Objs == 1..2
Texts == {"", "t"}
Events == [op : {"make"}, o : Objs, type : {"manual", "phdthesis"}, key : Keys, args : {<<"a">>, <<"a", "b", "c">>}] \cup
          [op : {"set"}, o : Objs, x : {"organization", "doi"}, v : Texts] \cup
          [op : {"copy"}, o : Objs, s : Objs] \cup
          [op : {"add"}, o : Objs, d : {"d1", "d2"}]
None == Plain("misc", "")
Did(e) == CASE e.op = "make" -> refs' = [refs EXCEPT ![e.o] = Made(e.type, e.key, e.args)] /\ UNCHANGED M
            [] e.op = "set" -> refs[e.o] # None /\ refs' = [refs EXCEPT ![e.o].f[e.x] = e.v] /\ UNCHANGED M
            [] e.op = "copy" -> e.o # e.s /\ refs[e.s] # None /\ refs' = [refs EXCEPT ![e.o] = refs[e.s]] /\ UNCHANGED M
            [] e.op = "add" -> refs[e.o] # None /\ M' = Register(M, refs[e.o], e.d) /\ UNCHANGED refs
Init == M = Start /\ refs = [o \in Objs |-> None] /\ hist = <<>>
Next == Len(hist) < MaxLen /\ \E e \in Events : Did(e) /\ hist' = Append(hist, IF e.op = "add" THEN [op |-> "add", o |-> e.o, d |-> e.d, r |-> refs[e.o]] ELSE e)
Spec == Init /\ [][Next]_vars

Adds == {i \in 1..Len(hist) : hist[i].op = "add"}
\* each key once; exactly the keys registered; as it was when it was registered first; with all its descriptions
OnceEach == Cardinality(Entries(M)) = Cardinality(DOMAIN M) /\ \A k \in DOMAIN M : M[k].ref.key = k
Registered == DOMAIN M = {"Schmitz2018"} \cup {hist[i].r.key : i \in Adds}
FirstWins == \A i \in Adds : LET k == hist[i].r.key IN
               (k # "Schmitz2018" /\ \A j \in Adds : j < i => hist[j].r.key # k) => M[k].ref = hist[i].r
Described == \A k \in DOMAIN M : M[k].descs = (IF k = "Schmitz2018" THEN Start[k].descs ELSE {}) \cup {hist[i].d : i \in {j \in Adds : hist[j].r.key = k}}
OwnStays == M["Schmitz2018"].ref = Schnek
Cited == {c.key : c \in Citations(M)} = {e.key : e \in Entries(M)}
=============================================================================
