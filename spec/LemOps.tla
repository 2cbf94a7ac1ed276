------------------------------ MODULE LemOps ------------------------------
(* The dictionary lemmatizer: what a dictionary of word forms means, and what the lemmatizer adds to a document.

   A dictionary is a set of records [f: form, m: lemma, t: <<>> or <<features>>, o: <<>> or <<details>>].  Texts are
   strings.  ord is the sequence of characters in their order, low the pairs <<capital letter, small letter>>. *)
EXTENDS ConvOps, LexOps

\* ==== the text of a dictionary: a form, its lemma, features of the lexeme, details of the form
\* [k |-> "none" / "bad" / "entry", r]
DictLine(s) ==
    LET p == SplitAt(s, Field)
    IN  IF s = "" THEN [k |-> "none"]
        ELSE IF Len(p) < 2 THEN [k |-> "bad"]
        ELSE [k |-> "entry", r |-> [f |-> p[1], m |-> p[2], t |-> IF Len(p) > 2 THEN << p[3] >> ELSE <<>>,
                                    o |-> IF Len(p) > 3 THEN << p[4] >> ELSE <<>>]]
\* [ok, d]
ReadDict(lines) ==
    LET ls == [i \in DOMAIN lines |-> DictLine(lines[i])]
    IN  IF \E i \in DOMAIN ls : ls[i].k = "bad" THEN [ok |-> FALSE, d |-> {}]
        ELSE [ok |-> TRUE, d |-> { ls[i].r : i \in { j \in DOMAIN ls : ls[j].k = "entry" } }]
Entries(d, w) == { r \in d : r.f = w }

\* ==== order
\* strings in the order of their characters
Sooner(a, b, rank) ==
    \/ \E n \in 1..Len(b) : /\ n <= Len(a) /\ SubSeq(a, 1, n - 1) = SubSeq(b, 1, n - 1)
                            /\ rank[Char(a, n)] < rank[Char(b, n)]
    \/ Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a
Sorted(S, rank) == SetToSortSeq(S, LAMBDA a, b : Sooner(a, b, rank))
RankOf(ord) == [c \in Range(ord) |-> CHOOSE i \in DOMAIN ord : ord[i] = c]

\* ==== features
\* pairs of a text such as "pos=noun,k=v": the name of a bare one is given by bare
Items(s, bare(_)) == LET fs == SplitAt(s, {","})
                     IN  [i \in DOMAIN fs |->
                            LET p == SplitAt(fs[i], {"="})
                            IN  IF Len(p) = 1 THEN bare(fs[i]) ELSE <<p[1], JoinWith(Tail(p), "=")>>]
PutAll(ps) == FoldLeft(LAMBDA acc, p : Merged(acc, <<p>>), <<>>, SelectSeq(ps, LAMBDA p : p[1] # "pos"))
PosAmong(ps) == LET own == SelectSeq(ps, LAMBDA p : p[1] = "pos") IN IF own = <<>> THEN "" ELSE own[Len(own)][2]
LexemeItems(t) == Items(t, LAMBDA x : <<"pos", x>>)
FormItems(o) == Items(o, LAMBDA x : <<x, "1">>)

\* ==== words to look up: as written, then with small letters
LowerOf(low, c) == IF \E p \in low : p[1] = c THEN (CHOOSE p \in low : p[1] = c)[2] ELSE c
LowerTail(low, w) == JoinWith([i \in 1..Len(w) |-> IF i = 1 THEN Char(w, 1) ELSE LowerOf(low, Char(w, i))], "")
LowerHead(low, w) == JoinWith([i \in 1..Len(w) |-> IF i = 1 THEN LowerOf(low, Char(w, 1)) ELSE Char(w, i)], "")
Readings(low, w) == << w >> \o SelectSeq(<< LowerTail(low, w), LowerHead(low, w) >>, LAMBDA x : x # w)

\* ==== what is added
Node(E, i, c, x, a, g) == [Plain(E, i, g, << i >>) EXCEPT !.c = c, !.x = x, !.a = a]
Own == {"lamerlemma", "morfologik-tagset"}
\* adds a request and goes on from the annotation it made: f(E, its number)
With(ch, E, r, f(_, _)) == LET x == Add(ch, E, r) IN IF x.r # "ok" THEN x.E ELSE f(x.E, x.ret)
Shown(m, cfg) == IF cfg.ids THEN m ELSE SplitAt(m, {":"})[1]

FormsFor(ch, E, w, pos, i, rs, cfg) ==
    FoldLeft(LAMBDA acc, o : With(ch, acc, Node(acc, i, pos, w, IF o = <<>> THEN <<>> ELSE PutAll(FormItems(o[1])), Own \cup {"form"}),
                                  LAMBDA EE, k : EE),
             E, (IF <<>> \in rs THEN << <<>> >> ELSE <<>>)
                \o [k \in DOMAIN Sorted({ o[1] : o \in rs \ { <<>> } }, cfg.rank) |-> << Sorted({ o[1] : o \in rs \ { <<>> } }, cfg.rank)[k] >>])
LexemesFor(ch, E, w, m, i, rs, cfg) ==
    FoldLeft(LAMBDA acc, t :
        LET pos == PosAmong(LexemeItems(t))
        IN  With(ch, acc, Node(acc, i, pos, Shown(m, cfg) \o "+" \o pos, PutAll(LexemeItems(t)), Own \cup {"lexeme"}),
                 LAMBDA EE, k : IF cfg.level < 3 THEN EE
                                ELSE FormsFor(ch, EE, w, pos, k, { r.o : r \in { x \in rs : x.t = << t >> } }, cfg)),
        E, Sorted({ r.t[1] : r \in { x \in rs : x.t # <<>> } }, cfg.rank))
LemmasFor(ch, E, w, i, rs, cfg) ==
    FoldLeft(LAMBDA acc, m :
        With(ch, acc, Node(acc, i, "word", Shown(m, cfg), <<>>, Own \cup {"lemma"}),
             LAMBDA EE, k : IF cfg.level < 2 THEN EE ELSE LexemesFor(ch, EE, w, m, k, { r \in rs : r.m = m }, cfg)),
        E, Sorted({ r.m : r \in rs }, cfg.rank))
LemmatizeOne(ch, E, i, cfg) ==
    IF E[i].c \notin {"T", "word"} \/ cfg.level = 0 THEN E
    ELSE FoldLeft(LAMBDA acc, w :
            LET rs == Entries(cfg.d, w)
            IN  IF rs = {} THEN acc
                ELSE With(ch, acc, Node(acc, i, "term", w, <<>>, Own \cup {"normalization"}),
                          LAMBDA EE, k : LemmasFor(ch, EE, w, k, rs, cfg)),
            E, Readings(cfg.low, E[i].x))
Lemmatize(ch, E, order, cfg) == FoldLeft(LAMBDA acc, i : LemmatizeOne(ch, acc, i, cfg), E, order)
=============================================================================
