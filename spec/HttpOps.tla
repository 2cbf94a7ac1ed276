------------------------------ MODULE HttpOps ------------------------------
(* The request grammar of the server and an incremental reader of it.  Bytes are numbers 0..255.

   Grammar:  METHOD SP ADDRESS SP HTTP/ digits . digits CRLF headers CRLF body
             header: NAME ':' SP VALUE CRLF, where following lines that start with a blank or a tab
             continue the value of the header before them (leading blanks of the line dropped);
             body only for the method POST: Content-Length bytes (the last header of that name
             counts), without line breaks unless the Content-Type starts with "multipart". *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

Ctl(c) == c < 32 \/ c = 127
\* ( ) < > @ , ; : \ " / [ ] ? = { } blank tab
Special(c) == c \in {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125, 32, 9}
Token(c) == c < 128 /\ ~Ctl(c) /\ ~Special(c)
Digit(c) == c \in 48..57
CR == 13
LF == 10
SP == 32
TAB == 9
HTTP == <<72, 84, 84, 80, 47>>
POST == <<80, 79, 83, 84>>
ContentLength == <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104>>
ContentType == <<67, 111, 110, 116, 101, 110, 116, 45, 84, 121, 112, 101>>
Multipart == <<109, 117, 108, 116, 105, 112, 97, 114, 116>>

Fresh == [at |-> "method0", k |-> 0, m |-> <<>>, u |-> <<>>, maj |-> 0, min |-> 0, hs |-> <<>>, body |-> <<>>,
          need |-> 0, multi |-> FALSE, r |-> "more"]

\* value of the last header called n, or <<>>
Header(hs, n) == LET S == { i \in DOMAIN hs : hs[i].n = n } IN
                 IF S = {} THEN <<>> ELSE hs[CHOOSE i \in S : \A j \in S : j <= i].v
\* leading decimal digits of v as a number (0 if there are none, as for a missing header)
RECURSIVE Number(_, _, _)
Number(v, i, acc) == IF i > Len(v) \/ ~Digit(v[i]) THEN acc ELSE Number(v, i + 1, acc * 10 + v[i] - 48)
StartsWith(v, p) == Len(v) >= Len(p) /\ SubSeq(v, 1, Len(p)) = p

AddTo(hs, f, c) == [hs EXCEPT ![Len(hs)] = [@ EXCEPT ![f] = Append(@, c)]]
Bad(s) == [s EXCEPT !.r = "bad"]
Go(s, at) == [s EXCEPT !.at = at]
Headed(s) == \* the blank line was read
    IF s.m # POST THEN [s EXCEPT !.r = "ok"]
    ELSE LET n == Number(Header(s.hs, ContentLength), 1, 0)
         IN  IF n = 0 THEN [s EXCEPT !.r = "ok"]
             ELSE [s EXCEPT !.at = "body", !.need = n, !.multi = StartsWith(Header(s.hs, ContentType), Multipart)]

Eat(s, c) ==
    CASE s.at = "method0" -> IF Token(c) THEN [s EXCEPT !.m = Append(@, c), !.at = "method"] ELSE Bad(s)
      [] s.at = "method" -> IF c = SP THEN Go(s, "address") ELSE IF Token(c) THEN [s EXCEPT !.m = Append(@, c)] ELSE Bad(s)
      [] s.at = "address" -> IF c = SP THEN [Go(s, "http") EXCEPT !.k = 1]
                             ELSE IF Ctl(c) THEN Bad(s) ELSE [s EXCEPT !.u = Append(@, c)]
      [] s.at = "http" -> IF c # HTTP[s.k] THEN Bad(s) ELSE IF s.k = 5 THEN Go(s, "major0") ELSE [s EXCEPT !.k = @ + 1]
      [] s.at = "major0" -> IF Digit(c) THEN [Go(s, "major") EXCEPT !.maj = c - 48] ELSE Bad(s)
      [] s.at = "major" -> IF c = 46 THEN Go(s, "minor0") ELSE IF Digit(c) THEN [s EXCEPT !.maj = @ * 10 + c - 48] ELSE Bad(s)
      [] s.at = "minor0" -> IF Digit(c) THEN [Go(s, "minor") EXCEPT !.min = c - 48] ELSE Bad(s)
      [] s.at = "minor" -> IF c = CR THEN Go(s, "lf1") ELSE IF Digit(c) THEN [s EXCEPT !.min = @ * 10 + c - 48] ELSE Bad(s)
      [] s.at = "lf1" -> IF c = LF THEN Go(s, "line") ELSE Bad(s)
      [] s.at = "line" -> IF c = CR THEN Go(s, "lf3")
                          ELSE IF s.hs # <<>> /\ c \in {SP, TAB} THEN Go(s, "fold")
                          ELSE IF Token(c) THEN [Go(s, "name") EXCEPT !.hs = Append(@, [n |-> <<c>>, v |-> <<>>])] ELSE Bad(s)
      [] s.at = "fold" -> IF c = CR THEN Go(s, "lf2") ELSE IF c \in {SP, TAB} THEN s
                          ELSE IF Ctl(c) THEN Bad(s) ELSE [Go(s, "value") EXCEPT !.hs = AddTo(@, "v", c)]
      [] s.at = "name" -> IF c = 58 THEN Go(s, "gap") ELSE IF Token(c) THEN [s EXCEPT !.hs = AddTo(@, "n", c)] ELSE Bad(s)
      [] s.at = "gap" -> IF c = SP THEN Go(s, "value") ELSE Bad(s)
      [] s.at = "value" -> IF c = CR THEN Go(s, "lf2") ELSE IF Ctl(c) THEN Bad(s) ELSE [s EXCEPT !.hs = AddTo(@, "v", c)]
      [] s.at = "lf2" -> IF c = LF THEN Go(s, "line") ELSE Bad(s)
      [] s.at = "lf3" -> IF c = LF THEN Headed(s) ELSE Bad(s)
      [] s.at = "body" -> IF ~s.multi /\ c \in {CR, LF} THEN Bad(s)
                          ELSE LET b == Append(s.body, c)
                               IN [s EXCEPT !.body = b, !.r = IF Len(b) = s.need THEN "ok" ELSE "more"]

\* the state after the first bytes of b that are needed for a verdict, and how many these are
RECURSIVE Read(_, _, _)
Read(s, b, i) == IF i > Len(b) \/ s.r # "more" THEN [s |-> s, n |-> i - 1] ELSE Read(Eat(s, b[i]), b, i + 1)

\* ==== requests as they should be written
Digits(n) == CASE n < 10 -> <<48 + n>> [] OTHER -> <<48 + (n \div 10), 48 + (n % 10)>>
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Render(q) == q.m \o <<SP>> \o q.u \o <<SP>> \o HTTP \o Digits(q.maj) \o <<46>> \o Digits(q.min) \o <<CR, LF>>
             \o Flat([i \in DOMAIN q.hs |-> q.hs[i].n \o <<58, SP>> \o q.hs[i].v \o <<CR, LF>>]) \o <<CR, LF>> \o q.body
=============================================================================
