---------------------------- MODULE LiteratureTrace -------------------------
EXTENDS Literature, Json, IOUtils
VARIABLES h, l, M, refs, title, subtitle
Hist == ndJsonDeserialize(IOEnv.TRACE)
Ev == Hist[h].ev
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Observed(e) == [type |-> e.type, key |-> e.key, f |-> RangeOf(e.f)]
Each(seq, S) == Len(seq) = Cardinality(S)
Do(e) ==
  CASE e.op = "make" -> refs' = [refs EXCEPT ![e.o] = Made(e.type, e.key, e.args)] /\ UNCHANGED <<M, title, subtitle>>
    [] e.op = "plain" -> refs' = [refs EXCEPT ![e.o] = Plain(e.type, e.key)] /\ UNCHANGED <<M, title, subtitle>>
    [] e.op = "retype" -> refs' = [refs EXCEPT ![e.o].type = e.type] /\ UNCHANGED <<M, title, subtitle>>
    [] e.op = "set" -> refs' = [refs EXCEPT ![e.o].f[e.x] = e.v] /\ UNCHANGED <<M, title, subtitle>>
    [] e.op = "copy" -> refs' = [refs EXCEPT ![e.o] = refs[e.s]] /\ UNCHANGED <<M, title, subtitle>>
    [] e.op = "get" -> e.v = [x \in Fields |-> refs[e.o].f[x]] /\ e.type = refs[e.o].type /\ e.key = refs[e.o].key /\ UNCHANGED <<M, refs, title, subtitle>>
    [] e.op = "print" -> Len(e.entries) = 1 /\ Observed(e.entries[1]) = Entry(refs[e.o]) /\ Len(e.entries[1].f) = Cardinality(Entry(refs[e.o]).f) /\ UNCHANGED <<M, refs, title, subtitle>>
    [] e.op = "add" -> M' = Register(M, refs[e.o], e.d) /\ UNCHANGED <<refs, title, subtitle>>
    [] e.op = "title" -> title' = e.v /\ UNCHANGED <<M, refs, subtitle>>
    [] e.op = "subtitle" -> subtitle' = e.v /\ UNCHANGED <<M, refs, title>>
    [] e.op = "bibtex" -> /\ {Observed(e.entries[i]) : i \in 1..Len(e.entries)} = Entries(M)
                          /\ Len(e.entries) = Cardinality(Entries(M))
                          /\ \A i \in 1..Len(e.entries) : Len(e.entries[i].f) = Cardinality(RangeOf(e.entries[i].f))
                          /\ UNCHANGED <<M, refs, title, subtitle>>
    [] e.op = "information" -> /\ {[key |-> e.items[i].key, descs |-> RangeOf(e.items[i].descs)] : i \in 1..Len(e.items)} = Citations(M)
                               /\ Len(e.items) = Cardinality(DOMAIN M)
                               /\ \A i \in 1..Len(e.items) : Len(e.items[i].descs) = Cardinality(M[e.items[i].key].descs)
                               /\ e.title = title /\ e.subtitle = subtitle /\ e.bibfile = e.name
                               /\ UNCHANGED <<M, refs, title, subtitle>>
    [] OTHER -> FALSE
TInit == /\ h \in 1..Len(Hist) /\ l = 0 /\ M = Start /\ refs = [o \in 1..4 |-> Plain("misc", "")]
         /\ title = "Algorithms and Methods" /\ subtitle = "The following algorithms and methods have been used during this simulation run."
TNext == \/ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ Do(Ev[l + 1])
         \/ l = Len(Ev) /\ UNCHANGED <<h, l, M, refs, title, subtitle>>
TSpec == TInit /\ [][TNext]_<<h, l, M, refs, title, subtitle>>
=============================================================================
