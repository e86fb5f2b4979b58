------------------------------ MODULE Literature ----------------------------
(* Literature references and the manager that collects them.                  *)
(* A reference is [type, key, f] where f maps names of fields to texts, the    *)
(* empty text being no text.  The manager keeps for each key the reference     *)
(* with which the key was registered first, and all descriptions.              *)
EXTENDS Integers, Sequences, FiniteSets
Fields == {"address", "annote", "author", "booktitle", "chapter", "crossref", "edition", "editor", "eprint", "howpublished", "institution", "journal", "key",
           "month", "note", "number", "organization", "pages", "publisher", "school", "series", "title", "type", "url", "doi", "volume", "year"}
Types == {"article", "book", "booklet", "inbook", "incollection", "inproceedings", "manual", "mastersthesis", "misc", "phdthesis", "proceedings", "techreport", "unpublished"}
(* the arguments of the constructors, after the key of the entry *)
Args == [
  article |-> <<"author", "title", "journal", "year", "volume", "pages", "number", "month", "note", "key">>,
  book |-> <<"author", "editor", "title", "publisher", "year", "volume", "number", "series", "address", "edition", "month", "note", "key">>,
  booklet |-> <<"title", "author", "howpublished", "address", "month", "year", "note", "key">>,
  inbook |-> <<"author", "editor", "title", "chapter", "pages", "publisher", "year", "volume", "number", "series", "type", "address", "edition", "month", "note", "key">>,
  incollection |-> <<"author", "title", "booktitle", "publisher", "year", "editor", "volume", "number", "series", "type", "chapter", "pages", "address", "edition", "month", "note", "key">>,
  inproceedings |-> <<"author", "title", "booktitle", "year", "editor", "volume", "number", "series", "pages", "address", "month", "organization", "publisher", "note", "key">>,
  manual |-> <<"title", "author", "organization", "address", "edition", "year", "publisher", "note", "key">>,
  mastersthesis |-> <<"author", "title", "school", "year", "type", "address", "month", "note", "key">>,
  misc |-> <<"author", "title", "howpublished", "month", "year", "note", "key">>,
  phdthesis |-> <<"author", "title", "school", "year", "type", "address", "month", "note", "key">>,
  proceedings |-> <<"title", "year", "editor", "volume", "number", "series", "address", "month", "organization", "publisher", "note", "key">>,
  techreport |-> <<"author", "title", "institution", "year", "type", "number", "address", "month", "note", "key">>,
  unpublished |-> <<"author", "title", "note", "year", "month", "key">> ]

NoText == [x \in Fields |-> ""]
Place(type, x) == CHOOSE i \in 1..Len(Args[type]) : Args[type][i] = x
Has(type, x) == \E i \in 1..Len(Args[type]) : Args[type][i] = x
Made(type, key, args) ==
  [type |-> type, key |-> key, f |-> [x \in Fields |-> IF Has(type, x) /\ Place(type, x) <= Len(args) THEN args[Place(type, x)] ELSE ""]]
Plain(type, key) == [type |-> type, key |-> key, f |-> NoText]

(* what is written about a reference: its type, key and every field that has a text *)
Entry(r) == [type |-> r.type, key |-> r.key, f |-> {<<x, r.f[x]>> : x \in {y \in Fields : r.f[y] # ""}}]

(* the manager: a function from keys to [ref, descs]; it starts with a reference to Schnek itself *)
Schnek == [Plain("article", "Schmitz2018") EXCEPT !.f["author"] = "Schmitz, Holger",
             !.f["title"] = "Schnek: A {C}++ library for the development of parallel simulation codes on regular grids",
             !.f["journal"] = "Computer Physics Communications", !.f["year"] = "2018", !.f["volume"] = "226", !.f["pages"] = "151--164",
             !.f["url"] = "https://doi.org/10.1016/j.cpc.2017.12.023"]
Start == [k \in {"Schmitz2018"} |-> [ref |-> Schnek, descs |-> {"Parallel simulation framework based on the Schnek Library"}]]
Register(M, r, d) ==
  IF r.key \in DOMAIN M THEN [M EXCEPT ![r.key].descs = @ \cup {d}]
  ELSE [k \in DOMAIN M \cup {r.key} |-> IF k = r.key THEN [ref |-> r, descs |-> {d}] ELSE M[k]]
Entries(M) == {Entry(M[k].ref) : k \in DOMAIN M}
Citations(M) == {[key |-> k, descs |-> M[k].descs] : k \in DOMAIN M}
=============================================================================
