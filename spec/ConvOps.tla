------------------------------ MODULE ConvOps ------------------------------
(* The selecting and joining processors as operators on the annotation graph of LatticeOps.

   They work place by place: order is the sequence of points in the order of the document.  A
   configuration carries
     selector      fb, in, test: layer conditions; g: tags of what is marked; blank: mark blanks too
                   cd: what the texts of conditions mean, as pairs <<text, alternatives of conjunctions>>
     antiselector  fb, in, g, blank
     joiner        left, right: layer conditions; g; ltext, lcat: take text / category from the left one;
                   attrs: "left" / "right" / "merge"; outer, ext: the outer options *)
EXTENDS LatticeOps

Plain(E, i, g, q) == [s |-> E[i].s, t |-> E[i].t, c |-> E[i].c, x |-> E[i].x, a |-> E[i].a, g |-> g, q |-> q,
                      w |-> 0, rule |-> -1, h |-> -1]
Attr(e, n) == LET k == SelectSeq(e.a, LAMBDA p : p[1] = n) IN IF k = <<>> THEN <<>> ELSE << k[1][2] >>

\* ==== selector
\* A regular reading is available when its condition holds: some reading of the same place in the
\* test layer has, for one alternative, every required category or attribute value.
Holds(E, i, cfg) ==
    LET cond == Attr(E[i], "condition")
        alts == (CHOOSE p \in Range(cfg.cd) : p[1] = cond[1])[2]
        \* a required feature is written as a category, or as <name>=<value>
        has(e, f) == e.c = f \/ \E k \in DOMAIN e.a : e.a[k][1] \o "=" \o e.a[k][2] = f
    IN  \/ cond = <<>>
        \/ cond[1] = "*"
        \/ \E j \in DOMAIN E : /\ E[j].s = E[i].s /\ E[j].t = E[i].t /\ Matches(E[j].g, cfg.test)
                               /\ \E n \in DOMAIN alts : \A m \in DOMAIN alts[n] : has(E[j], alts[n][m])

\* the chain of regular readings begun by i that leads to the end of the fall-back reading (or as far
\* as there are regular readings): [ok, l]
RECURSIVE Chain(_, _, _, _)
Chain(E, i, stop, cfg) ==
    IF ~Holds(E, i, cfg) THEN [ok |-> FALSE, l |-> <<>>]
    ELSE LET nx == Out(E, E[i].t, cfg.in)
         IN  IF E[i].t = stop \/ nx = <<>> THEN [ok |-> TRUE, l |-> <<i>>]
             ELSE LET rest == Chain(E, nx[1], stop, cfg)
                  IN [ok |-> rest.ok, l |-> <<i>> \o rest.l]

SelectAt(ch, E, v, cfg) ==
    LET fb == Out(E, v, cfg.fb)
        stop == E[fb[1]].t
        chosen == FoldLeft(LAMBDA acc, i : LET c == Chain(E, i, stop, cfg) IN IF c.ok THEN acc \o c.l ELSE acc,
                           <<>>, Out(E, v, cfg.in))
        mark(acc, r) == IF cfg.blank \/ r.c # "B" THEN Add(ch, acc, r).E ELSE acc
        fallback == LET r == Plain(E, fb[1], cfg.g, <<>>)
                    IN IF "morfologik" \in E[fb[1]].g THEN [r EXCEPT !.x = Slice(ch, r.s, r.t)] ELSE r
    IN  IF fb = <<>> THEN E
        ELSE IF chosen = <<>> THEN mark(E, fallback)
        ELSE FoldLeft(LAMBDA acc, i : mark(acc, Plain(E, i, cfg.g, <<>>)), E, chosen)
Select(ch, E, order, cfg) == FoldLeft(LAMBDA acc, v : SelectAt(ch, acc, v, cfg), E, order)

\* ==== anti-selector
AntiAt(ch, E, v, cfg) ==
    FoldLeft(LAMBDA acc, i :
        IF (\E j \in DOMAIN acc : acc[j].s = acc[i].s /\ acc[j].t = acc[i].t /\ Matches(acc[j].g, cfg.in))
           \/ (acc[i].c = "B" /\ ~cfg.blank)
        THEN acc ELSE Add(ch, acc, Plain(acc, i, cfg.g, <<>>)).E,
        E, Out(E, v, cfg.fb))
Anti(ch, E, order, cfg) == FoldLeft(LAMBDA acc, v : AntiAt(ch, acc, v, cfg), E, order)

\* ==== joiner
AttrNames == <<"case", "condition", "k", "m", "z">>       \* in their order
Merged(a, b) ==     \* the attributes of a, then those of b, which count where both have one
    FoldLeft(LAMBDA acc, n :
        LET y == SelectSeq(b, LAMBDA p : p[1] = n)
            x == SelectSeq(a, LAMBDA p : p[1] = n)
        IN  IF y # <<>> THEN Append(acc, y[1]) ELSE IF x # <<>> THEN Append(acc, x[1]) ELSE acc,
        <<>>, AttrNames)
AllLinks(e) == FoldLeft(LAMBDA acc, p : acc \o p.l, <<>>, e.p)
\* readings over the place of p in a layer made from p: once for every time they were
ChildrenOf(E, p, m) ==
    FoldLeft(LAMBDA acc, i :
        IF E[i].t # E[p].t THEN acc
        ELSE acc \o [k \in 1..Len(SelectSeq(AllLinks(E[i]), LAMBDA n : n = p)) |-> i],
        <<>>, Out(E, E[p].s, m))
\* [r, E]; a request the document refuses ends the run
Try(acc, f(_)) == IF acc.r # "ok" THEN acc ELSE f(acc.E)
JoinOne(ch, E0, i, cfg) ==
    LET links == AllLinks(E0[i])
        rights == IF links = <<>> THEN <<>> ELSE ChildrenOf(E0, links[1], cfg.right)
        pair(EE, j) ==
            LET x == Add(ch, EE, [Plain(EE, i, cfg.g, <<i, j>>) EXCEPT
                        !.c = IF cfg.lcat THEN @ ELSE EE[j].c,
                        !.x = IF cfg.ltext THEN @ ELSE EE[j].x,
                        !.a = CASE cfg.attrs = "left" -> @
                                [] cfg.attrs = "right" -> EE[j].a
                                [] OTHER -> Merged(@, EE[j].a)])
            IN [r |-> x.r, E |-> x.E]
        joined == FoldLeft(LAMBDA acc, j : Try(acc, LAMBDA EE : pair(EE, j)), [r |-> "ok", E |-> E0], rights)
        \* the left reading by itself: a mark on it where the result is that very reading
        alone(EE) ==
            LET r == Plain(EE, i, cfg.g, <<i>>)
                same == Plane(InheritedTags(EE, r)) = Plane(EE[i].g)
                x == IF same THEN Add(ch, EE, [r EXCEPT !.q = <<>>, !.g = @ \cup Plane(EE[i].g)]) ELSE Add(ch, EE, r)
            IN [r |-> x.r, E |-> x.E]
    IN  IF cfg.ext \/ (rights = <<>> /\ cfg.outer) THEN Try(joined, alone) ELSE joined
JoinAt(ch, st, v, cfg) ==
    IF st.r # "ok" THEN st
    ELSE FoldLeft(LAMBDA acc, i : Try(acc, LAMBDA EE : JoinOne(ch, EE, i, cfg)), st, Out(st.E, v, cfg.left))
Join(ch, E, order, cfg) == FoldLeft(LAMBDA acc, v : JoinAt(ch, acc, v, cfg), [r |-> "ok", E |-> E], order)

\* the same annotations, whatever their derivations
SameLabels(E1, E2) == /\ Len(E1) = Len(E2)
                      /\ { <<Key(E1[i]), E1[i].g, E1[i].w>> : i \in DOMAIN E1 }
                         = { <<Key(E2[i]), E2[i].g, E2[i].w>> : i \in DOMAIN E2 }
=============================================================================
