------------------------------- MODULE Scanner ------------------------------
(* The tokens of a setup file, given as a sequence of character codes.              *)
(* Tokens are [k, s, from, to]: the kind, its text (empty where the kind says it     *)
(* all), and the lines it stands on.  Scan ends with a token of kind "end", or of    *)
(* kind "error" where the text is not in the language.                               *)
EXTENDS Integers, Sequences

Letter(c) == c \in 65..90 \/ c \in 97..122 \/ c = 95
Digit(c)  == c \in 48..57
Blank(c)  == c \notin 33..126
NL == 10  Colon == 58  Dot == 46  Star == 42  Slash == 47  Back == 92  Quote1 == 39  Quote2 == 34
Sign(c) == c \in {43, 45}
Exp(c)  == c \in {69, 101}
Symbols == {61, 123, 125, 40, 41, 59, 44, 43, 45, 42, 47, 94}      \* = { } ( ) ; , + - * / ^
SymName(c) == CASE c = 61 -> "=" [] c = 123 -> "{" [] c = 125 -> "}" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 59 -> ";" [] c = 44 -> ","
                [] c = 43 -> "+" [] c = 45 -> "-" [] c = 42 -> "*" [] c = 47 -> "/" [] c = 94 -> "^"

At(cs, i) == IF i >= 1 /\ i <= Len(cs) THEN cs[i] ELSE -1
In(c, set) == CASE set = "digit" -> Digit(c)
                [] set = "name" -> Letter(c) \/ Digit(c) \/ c = Colon
                [] set = "line" -> c # -1 /\ c # NL
RECURSIVE Run(_, _, _)
\* the first place from i on whose character is not in the set
Run(cs, i, set) == IF At(cs, i) # -1 /\ In(At(cs, i), set) THEN Run(cs, i + 1, set) ELSE i
RECURSIVE Lines(_, _, _)
\* line breaks in cs[i..j]
Lines(cs, i, j) == IF i > j THEN 0 ELSE (IF cs[i] = NL THEN 1 ELSE 0) + Lines(cs, i + 1, j)

\* the end (exclusive) of an exponent that starts at i, or i if there is none
ExpEnd(cs, i) == LET j == IF Sign(At(cs, i + 1)) THEN i + 2 ELSE i + 1
                 IN IF Exp(At(cs, i)) /\ Digit(At(cs, j)) THEN Run(cs, j, "digit") ELSE i
Number(cs, i) == LET j == Run(cs, i, "digit")
                 IN IF At(cs, j) = Dot THEN [k |-> "flt", e |-> ExpEnd(cs, Run(cs, j + 1, "digit"))]
                    ELSE IF ExpEnd(cs, j) > j THEN [k |-> "flt", e |-> ExpEnd(cs, j)]
                    ELSE [k |-> "num", e |-> j]
RECURSIVE TextEnd(_, _, _)
\* the place of the closing quote q, or 0; a backslash protects the next character
TextEnd(cs, i, q) == IF i > Len(cs) THEN 0
                     ELSE IF cs[i] = q THEN i
                     ELSE IF cs[i] = Back THEN TextEnd(cs, i + 2, q)
                     ELSE TextEnd(cs, i + 1, q)
RECURSIVE CommentEnd(_, _)
CommentEnd(cs, i) == IF i >= Len(cs) THEN 0 ELSE IF cs[i] = Star /\ cs[i + 1] = Slash THEN i + 1 ELSE CommentEnd(cs, i + 1)

Int1 == <<105, 110, 116>>  Int2 == <<105, 110, 116, 101, 103, 101, 114>>
Flt1 == <<102, 108, 111, 97, 116>>  Flt2 == <<100, 111, 117, 98, 108, 101>>  Flt3 == <<114, 101, 97, 108>>
Str1 == <<115, 116, 114, 105, 110, 103>>
Word(t) == IF t \in {Int1, Int2} THEN "int" ELSE IF t \in {Flt1, Flt2, Flt3} THEN "float" ELSE IF t = Str1 THEN "string" ELSE "id"

Tok(k, s, a, b) == [k |-> k, s |-> s, from |-> a, to |-> b]
\* what stands at place i: [k, e (first place after it), s]
Lex(cs, i) ==
  LET c == cs[i] IN
  IF Blank(c) THEN [k |-> "blank", e |-> i + 1, s |-> <<>>]
  ELSE IF c = Slash /\ At(cs, i + 1) = Slash THEN [k |-> "blank", e |-> Run(cs, i, "line"), s |-> <<>>]
  ELSE IF c = Slash /\ At(cs, i + 1) = Star
       THEN LET e == CommentEnd(cs, i + 2) IN IF e = 0 THEN [k |-> "error", e |-> Len(cs) + 1, s |-> <<>>] ELSE [k |-> "blank", e |-> e + 1, s |-> <<>>]
  ELSE IF c \in {Quote1, Quote2}
       THEN LET e == TextEnd(cs, i + 1, c) IN IF e = 0 THEN [k |-> "error", e |-> Len(cs) + 1, s |-> <<>>] ELSE [k |-> "str", e |-> e + 1, s |-> SubSeq(cs, i + 1, e - 1)]
  ELSE IF Letter(c) THEN LET e == Run(cs, i, "name") t == SubSeq(cs, i, e - 1) IN [k |-> Word(t), e |-> e, s |-> IF Word(t) = "id" THEN t ELSE <<>>]
  ELSE IF Digit(c) \/ c = Dot THEN LET n == Number(cs, i) IN [k |-> n.k, e |-> n.e, s |-> SubSeq(cs, i, n.e - 1)]
  ELSE IF c \in Symbols THEN [k |-> SymName(c), e |-> i + 1, s |-> <<>>]
  ELSE [k |-> "error", e |-> i + 1, s |-> <<>>]
RECURSIVE ScanFrom(_, _, _, _)
ScanFrom(cs, i, line, out) ==
  IF i > Len(cs) THEN Append(out, Tok("end", <<>>, line, line))
  ELSE LET x == Lex(cs, i)
           last == line + Lines(cs, i, x.e - 1)
       IN IF x.k = "blank" THEN ScanFrom(cs, x.e, last, out)
          ELSE IF x.k = "error" THEN Append(out, Tok("error", <<>>, line, last))
          ELSE ScanFrom(cs, x.e, last, Append(out, Tok(x.k, x.s, line, last)))
Scan(cs) == ScanFrom(cs, 1, 1, <<>>)
=============================================================================
