----------------------------- MODULE LemModel -----------------------------
(* A dictionary is compiled line by line into texts that begin with the form and keep the lemma as what to cut from the
   form and what to put after it; asking means to look for the texts beginning with the word.  The answers must be those
   LemOps gives (Answers).  Then one run of the lemmatizer on a document with two tokens: what the property says about the
   result, independently of how LemOps computes it.  With Emit every history is printed as a driver script. *)
EXTENDS LemOps, Json
CONSTANTS MaxLines, Limit, Wrap, Lines, Emit

Text == << <<"a", 1>>, <<"b", 1>> >>
Ord == << "+", ",", "1", ":", "=", "A", "B", "N", "V", "a", "b", "k", "v" >>
Rank == RankOf(Ord)
Low == { <<"A", "a">>, <<"B", "b">> }
AllLines == { "ab a N k=v", "ab a N k", "ab a V", "ab b", "aab aab N k", "aab b:1 N,k=v k", "ab a:1 N", "a aab V k=v", "" }
FewLines == { "ab a N k", "ab a V", "aab b:1 N,k=v k", "a aab", "ab a:1 N k" }
Words == {"a", "b", "ab", "aab", "Ab", "AB", "aaB", ""}

\* ==== compiling
\* what is kept of the form: the longest block of it that the lemma begins with, the first such one
Block(f, m, i) == CHOOSE n \in 0..Len(m) : /\ i + n - 1 <= Len(f) /\ SubSeq(f, i, i + n - 1) = SubSeq(m, 1, n)
                                           /\ \A k \in (n + 1)..Len(m) : i + k - 1 > Len(f) \/ SubSeq(f, i, i + k - 1) # SubSeq(m, 1, k)
KeptFrom(f, m) == IF f = "" THEN 1 ELSE CHOOSE i \in 1..Len(f) : \A j \in 1..Len(f) :
                      Block(f, m, j) < Block(f, m, i) \/ (Block(f, m, j) = Block(f, m, i) /\ j >= i)
Digit(n) == ToString(IF Wrap THEN n % (Limit + 1) ELSE n)
Code(f, m) ==
    LET i == KeptFrom(f, m)
        n == IF f = "" THEN 0 ELSE Block(f, m, i)
        front == i - 1
        back == Len(f) - front - n
    IN  IF ~Wrap /\ (front > Limit \/ back > Limit) THEN "@@" \o m
        ELSE Digit(front) \o Digit(back) \o SubSeq(m, n + 1, Len(m))
NumberOf(c) == CHOOSE n \in 0..9 : ToString(n) = c
Decode(f, c) ==
    IF Char(c, 1) = "@" THEN SubSeq(c, 3, Len(c))
    ELSE SubSeq(f, NumberOf(Char(c, 1)) + 1, Len(f) - NumberOf(Char(c, 2))) \o SubSeq(c, 3, Len(c))
Compiled(r) == r.f \o "|" \o Code(r.f, r.m) \o (IF r.t = <<>> THEN "" ELSE "|" \o r.t[1]) \o (IF r.o = <<>> THEN "" ELSE "|" \o r.o[1])
Ask(store, w) ==
    { LET p == SplitAt(SubSeq(s, Len(w) + 2, Len(s)), {"|"})
      IN  [f |-> w, m |-> Decode(w, p[1]), t |-> IF Len(p) > 1 THEN << p[2] >> ELSE <<>>, o |-> IF Len(p) > 2 THEN << p[3] >> ELSE <<>>]
      : s \in { x \in store : Len(x) > Len(w) /\ SubSeq(x, 1, Len(w) + 1) = w \o "|" } }

VARIABLES lines, store, E, hist, done, cfg
vars == <<lines, store, E, hist, done, cfg>>
Req(sp, c, x) == [s |-> sp[1], t |-> sp[2], c |-> c, x |-> x, a |-> <<>>, g |-> {"token", "!x"}, q |-> <<>>, w |-> 0, rule |-> -1, h |-> -1]
Mask == [k |-> "alt", a |-> << <<"!x", "token">> >>]
Init == lines = <<>> /\ store = {} /\ E = <<>> /\ done = 0 /\ cfg = <<>>
        /\ hist = << [op |-> "reset", text |-> "ab", sym |-> FALSE] >>
AddLine == /\ done = 0 /\ Len(lines) < MaxLines
           /\ \E x \in Lines : /\ x \notin Range(lines)
                               /\ lines' = Append(lines, x)
                               /\ store' = store \cup (IF DictLine(x).k = "entry" THEN { Compiled(DictLine(x).r) } ELSE {})
           /\ UNCHANGED <<E, hist, done, cfg>>
Tokens == { << <<"T", "Ab">>, <<"word", "b">> >>, << <<"T", "aab">>, <<"B", "ab">> >>, << <<"T", "AB">>, <<"T", "A">> >>, << <<"word", "a">>, <<"T", "ab">> >> }
SetDown == /\ done = 0
           /\ \E ts \in Tokens :
                 /\ E' = Add(Text, Add(Text, <<>>, Req(<<0, 2>>, ts[1][1], ts[1][2])).E, Req(<<1, 2>>, ts[2][1], ts[2][2])).E
                 /\ hist' = hist \o [k \in 1..2 |-> [op |-> "add", s |-> k - 1, t |-> 2, c |-> ts[k][1], x |-> ts[k][2], a |-> <<>>,
                                                     g |-> <<"!x", "token">>, seq |-> <<>>, w |-> 0, rule |-> -1, h |-> -1]]
           /\ done' = 1 /\ UNCHANGED <<lines, store, cfg>>
RunIt == /\ done = 1
         /\ \E lv \in 0..3, ids \in BOOLEAN :
              /\ (lv = 0 => ~ids)
              /\ cfg' = << [d |-> ReadDict(lines).d, level |-> lv, ids |-> ids, rank |-> Rank, low |-> Low, old |-> E] >>
              /\ E' = Lemmatize(Text, E, <<1, 2>>, cfg'[1])
              /\ hist' = Append(hist, [op |-> "lemmatize", in |-> Mask, lines |-> lines, level |-> lv, ids |-> ids, nl |-> TRUE,
                                       bin |-> ids, twice |-> FALSE,
                                       args |-> <<"--lang", "x", "--level", ToString(lv)>> \o IF ids THEN <<"--lexeme-ids">> ELSE <<>>])
         /\ done' = 2 /\ UNCHANGED <<lines, store>>
Next == AddLine \/ SetDown \/ RunIt
Spec == Init /\ [][Next]_vars
View == <<lines, store, E, done, cfg>>
Printed == (Emit /\ done = 2) => PrintT("SCRIPT " \o ToJson(hist))

Answers == \A w \in Words : Ask(store, w) = Entries(ReadDict(lines).d, w)
C == cfg[1]
Old == C.old
KeepsAll == done = 2 => Keeps(Old, E) /\ WellFormed(Text, 0, E) /\ Unique(E) /\ LinksExist(E)
\* derivations of the annotation j from exactly the annotation i
From(j, i) == \E d \in DOMAIN E[j].p : E[j].p[d].l = << i >>
Spots(c, x, g) == { j \in DOMAIN E : E[j].c = c /\ E[j].x = x /\ g \in E[j].g }
\* each entry of the dictionary whose form is a reading of a token: its chain of annotations
Every == done = 2 /\ C.level > 0 => \A i \in DOMAIN Old : Old[i].c \in {"T", "word"} =>
    \A r \in C.d : r.f \in { Old[i].x, LowerTail(Low, Old[i].x), LowerHead(Low, Old[i].x) } =>
        \E n \in Spots("term", r.f, "normalization") : /\ From(n, i) /\ E[n].s = Old[i].s /\ E[n].t = Old[i].t
          /\ \E m \in Spots("word", Shown(r.m, C), "lemma") : /\ From(m, n)
            /\ (C.level > 1 /\ r.t # <<>>) =>
                 LET pos == PosAmong(LexemeItems(r.t[1]))
                 IN  \E x \in Spots(pos, Shown(r.m, C) \o "+" \o pos, "lexeme") : /\ From(x, m)
                       /\ C.level > 2 => \E o \in Spots(pos, r.f, "form") : From(o, x)
\* everything new comes from an entry, step by step
Only == done = 2 => \A j \in DOMAIN E : j \in DOMAIN Old \/
    /\ C.level > 0
    /\ Own \subseteq E[j].g
    /\ "lexeme" \in E[j].g => C.level > 1
    /\ "form" \in E[j].g => C.level > 2
    /\ \A d \in DOMAIN E[j].p : Len(E[j].p[d].l) = 1
    /\ "normalization" \in E[j].g => \E r \in C.d : r.f = E[j].x
    /\ "lemma" \in E[j].g => \E r \in C.d : Shown(r.m, C) = E[j].x
\* a higher level adds to a lower one
Levels == done = 2 /\ C.level > 0 => LET lower == Lemmatize(Text, Old, <<1, 2>>, [C EXCEPT !.level = @ - 1])
                                     IN  { Key(lower[i]) : i \in DOMAIN lower } \subseteq { Key(E[i]) : i \in DOMAIN E }
\* running again: the same annotations; the order of the lines does not matter
Again == done = 2 => SameLabels(E, Lemmatize(Text, E, <<1, 2>>, C))
=============================================================================
