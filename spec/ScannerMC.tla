------------------------------ MODULE ScannerMC -----------------------------
(* A scanner that reads the file in pieces into a buffer and recognises tokens one   *)
(* character at a time: it remembers where the current token started and where the    *)
(* longest token so far ended, keeps the unfinished part of the buffer when it reads  *)
(* on, and makes the buffer larger when a token fills it.  Whatever the buffer size,  *)
(* it delivers the tokens of Scanner.                                                 *)
EXTENDS Scanner, FiniteSets
CONSTANTS MaxLen, Alphabet, Buffers
VARIABLES cs,          \* the whole file
          got,         \* number of characters read into the buffer so far (of the file)
          base,        \* where in the file the buffer starts
          size,        \* of the buffer
          p,           \* next place to look at (in the file)
          ts, te, act, \* start of the current token (0: none), end and kind of the longest one so far
          q,           \* state of the automaton
          line, ln0,   \* current line, line at the start of the token
          out, done

vars == <<cs, got, base, size, p, ts, te, act, q, line, ln0, out, done>>
Chars == {97, 101, 49, 46, 43, 47, 42, 10, 39, 92, 33, 58, 61, 32}   \* a e 1 . + / * nl ' \ ! : = blank
Few   == {101, 49, 46, 43, 47, 42, 10, 39, 92}
Abc   == IF Alphabet = "all" THEN Chars ELSE Few
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE {Append(t, c) : t \in Texts(n - 1), c \in Abc}

\* the automaton: Step gives the next state, "stop" if the character can not continue the token
Start(c) == IF Blank(c) THEN "blank" ELSE IF Letter(c) THEN "name" ELSE IF Digit(c) THEN "int" ELSE IF c = Dot THEN "frac"
            ELSE IF c = Quote1 THEN "text" ELSE IF c = Slash THEN "slash" ELSE IF c \in Symbols THEN "symbol" ELSE "bad"
Step(s, c) ==
  CASE s = "none" -> Start(c)
    [] s = "name" -> IF Letter(c) \/ Digit(c) \/ c = Colon THEN "name" ELSE "stop"
    [] s = "int" -> IF Digit(c) THEN "int" ELSE IF c = Dot THEN "frac" ELSE IF Exp(c) THEN "e" ELSE "stop"
    [] s = "frac" -> IF Digit(c) THEN "frac" ELSE IF Exp(c) THEN "e" ELSE "stop"
    [] s = "e" -> IF Sign(c) THEN "e-" ELSE IF Digit(c) THEN "exp" ELSE "stop"
    [] s = "e-" -> IF Digit(c) THEN "exp" ELSE "stop"
    [] s = "exp" -> IF Digit(c) THEN "exp" ELSE "stop"
    [] s = "text" -> IF c = Quote1 THEN "closed" ELSE IF c = Back THEN "escape" ELSE "text"
    [] s = "escape" -> "text"
    [] s = "slash" -> IF c = Slash THEN "rest" ELSE IF c = Star THEN "comment" ELSE "stop"
    [] s = "rest" -> IF c = NL THEN "stop" ELSE "rest"
    [] s = "comment" -> IF c = Star THEN "star" ELSE "comment"
    [] s = "star" -> IF c = Slash THEN "blank" ELSE IF c = Star THEN "star" ELSE "comment"
    [] OTHER -> "stop"
Accepts(s) == CASE s = "name" -> "id" [] s = "int" -> "num" [] s \in {"frac", "exp"} -> "flt" [] s = "closed" -> "str"
                [] s \in {"symbol", "slash"} -> "symbol" [] s \in {"blank", "rest"} -> "blank" [] OTHER -> ""

Init == /\ cs \in UNION {Texts(n) : n \in 0..MaxLen} /\ size \in Buffers
        /\ got = 0 /\ base = 1 /\ p = 1 /\ ts = 0 /\ te = 0 /\ act = "" /\ q = "none" /\ line = 1 /\ ln0 = 1 /\ out = <<>> /\ done = FALSE
\* everything in the buffer has been looked at: read on, keeping what belongs to an unfinished token
AtEnd == got = Len(cs)
Read == /\ ~done /\ p = got + 1 /\ ~AtEnd
        /\ LET keep == IF ts = 0 THEN 0 ELSE got - ts + 1
               sz == IF keep = size THEN 2 * size ELSE size
           IN /\ size' = sz /\ base' = IF ts = 0 THEN p ELSE ts
              /\ got' = IF got + (sz - keep) <= Len(cs) THEN got + (sz - keep) ELSE Len(cs)
        /\ UNCHANGED <<cs, p, ts, te, act, q, line, ln0, out, done>>
Result == IF act = "blank" THEN out
          ELSE LET t == SubSeq(cs, ts, te - 1) IN
               Append(out, IF act = "symbol" THEN Tok(SymName(t[1]), <<>>, ln0, ln0 + Lines(cs, ts, te - 1))
                           ELSE IF act = "id" THEN Tok(Word(t), IF Word(t) = "id" THEN t ELSE <<>>, ln0, ln0)
                           ELSE IF act = "str" THEN Tok("str", SubSeq(t, 2, Len(t) - 1), ln0, ln0 + Lines(cs, ts, te - 1))
                           ELSE Tok(act, t, ln0, ln0))
\* the longest token is complete: deliver it and go back to its end
Deliver == /\ out' = Result /\ p' = te /\ line' = ln0 + Lines(cs, ts, te - 1) /\ ln0' = line' /\ ts' = 0 /\ te' = 0 /\ act' = "" /\ q' = "none"
Fail == /\ out' = Append(out, Tok("error", <<>>, ln0, ln0 + Lines(cs, IF ts = 0 THEN p ELSE ts, Len(cs)))) /\ done' = TRUE
        /\ UNCHANGED <<cs, got, base, size, p, ts, te, act, q, line, ln0>>
Look == /\ ~done /\ p <= got
        /\ LET c == cs[p] n == Step(q, c) s0 == IF q = "none" THEN p ELSE ts IN
           IF n = "bad" THEN /\ out' = Append(out, Tok("error", <<>>, line, line)) /\ done' = TRUE /\ UNCHANGED <<cs, got, base, size, p, ts, te, act, q, line, ln0>>
           ELSE IF n = "stop" THEN (IF te = 0 THEN Fail ELSE Deliver /\ UNCHANGED <<cs, got, base, size, done>>)
           ELSE /\ ts' = s0 /\ q' = n /\ p' = p + 1
                /\ te' = IF Accepts(n) # "" THEN p + 1 ELSE IF q = "none" THEN 0 ELSE te
                /\ act' = IF Accepts(n) # "" THEN Accepts(n) ELSE IF q = "none" THEN "" ELSE IF n = "comment" THEN "" ELSE act
                /\ UNCHANGED <<cs, got, base, size, line, ln0, out, done>>
Finish == /\ ~done /\ p = got + 1 /\ AtEnd
          /\ IF q = "none" THEN out' = Append(out, Tok("end", <<>>, line, line)) /\ done' = TRUE /\ UNCHANGED <<cs, got, base, size, p, ts, te, act, q, line, ln0>>
             ELSE IF te = 0 \/ q \in {"comment", "star"} THEN Fail
             ELSE Deliver /\ UNCHANGED <<cs, got, base, size, done>>
Stop == done /\ UNCHANGED vars
Next == Read \/ Look \/ Finish \/ Stop
Spec == Init /\ [][Next]_vars

Faithful == done => out = Scan(cs)
SoFar == ~done => \E n \in 0..Len(Scan(cs)) : SubSeq(Scan(cs), 1, n) = out
\* everything that is still needed is in the buffer
InBuffer == got - base + 1 <= size /\ (ts # 0 => base <= ts) /\ p >= base /\ p <= got + 1
=============================================================================
