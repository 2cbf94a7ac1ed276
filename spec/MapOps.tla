------------------------------ MODULE MapOps ------------------------------
(* The annotators built on lexica: every annotation of a layer is looked up, every record found makes an annotation
   derived from it.  A configuration carries
     in: layer condition; g: tags of what is added; lex: the lexicon; kind: "mapper" / "bilexicon"
     ct, cc, ca    mapper: what the key consists of (text, category, attributes)
     lt, lc, la    what is taken from the annotation looked up; st, sc (<<>> or <<value>>), sa (pairs): given values
     add           take the attributes of the record, too
     ult .. usa    the same for annotations that are not in the lexicon *)
EXTENDS ConvOps, LexOps

\* the attributes a list of features ("name=value", or "name" for "name=1") gives; later ones count
Feature(f) == LET p == SplitAt(f, {"="})
              IN  IF Len(p) = 1 THEN <<f, "1">> ELSE <<p[1], JoinWith(Tail(p), "=")>>
Features(s) == LET fs == SplitAt(s, {","}) IN [i \in DOMAIN fs |-> Feature(fs[i])]
FirstSubfields(s) == LET p == SplitAt(s, {"\t"}) IN IF s = "" THEN <<>> ELSE Features(p[1])
Put(a, ps) == FoldLeft(LAMBDA acc, p : Merged(acc, <<p>>), a, ps)

KeyOf(e, cfg) ==
    LET attrs == [i \in DOMAIN e.a |-> e.a[i][1] \o "=" \o e.a[i][2]]
    IN  JoinWith((IF cfg.ct THEN <<e.x>> ELSE <<>>) \o (IF cfg.cc THEN <<e.c>> ELSE <<>>)
                 \o (IF cfg.ca THEN attrs ELSE <<>>), ",")

\* [x, c, a] of the annotation a record makes
Mapped(e, rec, cfg) ==
    LET f == SplitAt(rec, {"\t"})
        own == IF Len(f) > 2 THEN Features(f[3]) ELSE <<>>
    IN  [x |-> IF cfg.st # <<>> THEN cfg.st[1] ELSE IF cfg.lt THEN e.x ELSE f[1],
         c |-> IF cfg.sc # <<>> THEN cfg.sc[1] ELSE IF cfg.lc THEN e.c ELSE IF Len(f) > 1 THEN f[2] ELSE rec,
         a |-> Put(Put(IF cfg.la THEN e.a ELSE <<>>, cfg.sa), IF cfg.add THEN own ELSE <<>>)]
Unknown(e, cfg) ==
    [x |-> IF cfg.ust # <<>> THEN cfg.ust[1] ELSE IF cfg.ult THEN e.x ELSE "unknown",
     c |-> IF cfg.usc # <<>> THEN cfg.usc[1] ELSE IF cfg.ulc THEN e.c ELSE "unknown",
     a |-> Put(IF cfg.ula THEN e.a ELSE <<>>, cfg.usa)]
Translated(rec) == LET p == SplitAt(rec, {"+"})
                   IN  [x |-> rec, c |-> IF Len(p) = 1 THEN rec ELSE JoinWith(Tail(p), "+"), a |-> <<>>]

\* the annotations made for annotation e
Made(e, cfg) ==
    IF cfg.kind = "bilexicon" THEN LET rs == Records(cfg.lex, e.x) IN [i \in DOMAIN rs |-> Translated(rs[i])]
    ELSE LET rs == Records(cfg.lex, KeyOf(e, cfg))
         IN  IF rs # <<>> THEN [i \in DOMAIN rs |-> Mapped(e, rs[i], cfg)]
             ELSE IF cfg.ult \/ cfg.ulc \/ cfg.ula \/ cfg.ust # <<>> \/ cfg.usc # <<>> \/ cfg.usa # <<>>
             THEN << Unknown(e, cfg) >> ELSE <<>>
MapOne(ch, E, i, cfg) ==
    FoldLeft(LAMBDA acc, m :
        LET x == Add(ch, acc, [Plain(acc, i, cfg.g, <<i>>) EXCEPT !.x = m.x, !.c = m.c, !.a = m.a])
        \* mapped onto itself: the annotation only gets the tags
        IN  IF x.r = "self" THEN Part(ch, acc, i, [g |-> cfg.g, q |-> <<>>, w |-> 0, rule |-> -1, h |-> -1]).E ELSE x.E,
        E, Made(E[i], cfg))
MapAll(ch, E, order, cfg) == FoldLeft(LAMBDA acc, i : MapOne(ch, acc, i, cfg), E, order)
=============================================================================
