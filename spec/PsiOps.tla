------------------------------- MODULE PsiOps -------------------------------
(* The native (PSI) exchange format: what the rows of a file say, and the document they stand for.

   A row, with its columns unescaped, is a record
     n      its number
     s, t   end points: a byte offset, or -k for the extra point @k
     text   the characters of the text column, as <<character, width>>
     g, x, c, a, w   tags, annotation text, category, attributes, score
     dflt   no list of derivations: made of the bare characters it spans
     p      otherwise, derivations [l, q, g, w]: l the numbers of the rows it is made of (0: the next
            bare character), q the roles, g its tags (<<>>: those of the row), w its score (<<>>: the row's)
   A row tagged only "symbol" is a bare character; a row tagged U+2205 is text without any annotation.

   A document, as far as the format keeps it, is its text and its annotations other than bare characters:
   records [s, t, c, x, a, g, w, p], derivations [l, q, g, w], l a sequence of links: <<"bare", s, t>> or
   <<"ann", s, t, c, x, a, plane>> (annotations with equal ends and label are told apart by their plane). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS PlaneTags, Nothing    \* tags of planes; the tag of text without annotations

PWidth(ch) == FoldLeft(LAMBDA acc, c : acc + c[2], 0, ch)
PBounds(ch) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + c[2]), <<0>>, ch)
PIx(ch, v) == LET b == PBounds(ch) IN IF v \in Range(b) THEN CHOOSE i \in DOMAIN b : b[i] = v ELSE 0
PPlane(g) == g \cap PlaneTags
Bare(g) == g = {"symbol"}
BareLink(s, t) == <<"bare", s, t>>
AnnLink(e) == <<"ann", e.s, e.t, e.c, e.x, e.a, PPlane(e.g)>>
Link(e) == IF Bare(e.g) THEN BareLink(e.s, e.t) ELSE AnnLink(e)
LinkEnd(k) == k[3]
\* the bare characters between two offsets, as links
Chars(ch, s, t) ==
    LET b == PBounds(ch)
        i == PIx(ch, s)
        j == PIx(ch, t)
    IN IF s < 0 \/ t < 0 \/ i = 0 \/ j = 0 THEN <<>>
       ELSE [k \in 1..(j - i) |-> BareLink(b[i + k - 1], b[i + k])]

\* ==== reading
\* the text a row adds to what is known so far; "bad" when it cannot be told
Known(R, r) ==
    IF r.s < 0 \/ r.t < 0 THEN [ok |-> TRUE, ch |-> R.ch]
    ELSE LET W == PWidth(R.ch)
             at == PIx(r.text, W - r.s)
         IN IF r.t <= W THEN [ok |-> TRUE, ch |-> R.ch]
            ELSE IF r.s > W \/ PWidth(r.text) # r.t - r.s \/ at = 0 THEN [ok |-> FALSE, ch |-> R.ch]
            ELSE [ok |-> TRUE, ch |-> R.ch \o SubSeq(r.text, at, Len(r.text))]

\* the links of a derivation, from the row's source on
Links(R, ch, r, p) ==
    FoldLeft(LAMBDA acc, n :
                IF ~acc.ok THEN acc
                ELSE IF n = 0
                THEN LET i == PIx(ch, acc.v)
                     IN IF i = 0 \/ i > Len(ch) THEN [acc EXCEPT !.ok = FALSE]
                        ELSE LET e == acc.v + ch[i][2] IN [ok |-> TRUE, v |-> e, l |-> Append(acc.l, BareLink(acc.v, e))]
                ELSE IF n \notin DOMAIN R.row THEN [acc EXCEPT !.ok = FALSE]
                ELSE [ok |-> TRUE, v |-> LinkEnd(R.row[n]), l |-> Append(acc.l, R.row[n])],
             [ok |-> TRUE, v |-> r.s, l |-> <<>>], p.l)

Empty == [ok |-> TRUE, ch |-> <<>>, E |-> {}, row |-> <<>>]
Put(f, n, x) == [k \in DOMAIN f \cup {n} |-> IF k = n THEN x ELSE f[k]]
ReadRow(R, r) ==
    IF ~R.ok THEN R
    ELSE LET k == Known(R, r)
             g == Range(r.g)
             given == [i \in DOMAIN r.p |-> Links(R, k.ch, r, r.p[i])]
             ps == IF Bare(g) THEN <<>>
                   ELSE IF r.dflt THEN << [l |-> Chars(k.ch, r.s, r.t), q |-> [i \in DOMAIN Chars(k.ch, r.s, r.t) |-> ""], g |-> g, w |-> r.w] >>
                   ELSE [i \in DOMAIN r.p |-> [l |-> given[i].l, q |-> r.p[i].q,
                                               g |-> IF r.p[i].g = <<>> THEN g ELSE Range(r.p[i].g),
                                               w |-> IF r.p[i].w = <<>> THEN r.w ELSE r.p[i].w[1]]]
             e == [s |-> r.s, t |-> r.t, c |-> r.c, x |-> r.x, a |-> r.a, g |-> g, w |-> r.w, p |-> ps]
         IN  IF ~k.ok \/ (\E i \in DOMAIN given : ~given[i].ok) \/ r.n \in DOMAIN R.row
                \/ (~Bare(g) /\ Link(e) \in { Link(d) : d \in R.E }) THEN [R EXCEPT !.ok = FALSE]
             ELSE [ok |-> TRUE, ch |-> k.ch,
                   E |-> IF Bare(g) \/ g = {Nothing} THEN R.E ELSE R.E \cup {e},
                   row |-> IF g = {Nothing} THEN R.row ELSE Put(R.row, r.n, Link(e))]
Read(rows) == FoldLeft(LAMBDA acc, r : ReadRow(acc, r), Empty, rows)

\* ==== the same document, extra points renamed
Ren(f, v) == IF v < 0 /\ v \in DOMAIN f THEN f[v] ELSE v
RenLink(f, k) == IF k[1] = "bare" THEN k ELSE [k EXCEPT ![2] = Ren(f, @), ![3] = Ren(f, @)]
RenEdge(f, e) == [e EXCEPT !.s = Ren(f, @), !.t = Ren(f, @),
                           !.p = [i \in DOMAIN @ |-> [@[i] EXCEPT !.l = [j \in DOMAIN @ |-> RenLink(f, @[j])]]]]
Extra(E) == { v \in { e.s : e \in E } \cup { e.t : e \in E } : v < 0 }
Renamings(A, B) ==
    IF Cardinality(A) # Cardinality(B) THEN {}
    ELSE { f \in [A -> B] : \A x, y \in A : f[x] = f[y] => x = y }
SameUpToPoints(D1, D2) ==
    \E f \in Renamings(Extra(D1), Extra(D2)) : { RenEdge(f, e) : e \in D1 } = D2
=============================================================================
