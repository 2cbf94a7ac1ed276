----------------------------- MODULE LatticeOps -----------------------------
(* The annotation graph of psi-toolkit as pure operators on an abstract state.

   An annotation ("edge") is a record
     s, t   end points: byte offset of a character boundary, or -k for the k-th
            extra ("loose") point
     c, x   category and text of the label;  a: its attributes (sequence of
            name/value pairs in name order)
     g      set of layer tags;  w: score
     p      sequence of derivations [g, l (sequence of edge numbers), w, r, h]
     imp    a bare character ("symbol") annotation, which the implementation
            keeps implicitly; such annotations come first at their points
   The document is the sequence E of edges in creation order, the text as a
   sequence of <<character, width in bytes>>, and the number of loose points. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANT PlaneTags          \* tags naming annotation planes ("!..." tags)

Max2(a, b) == IF a > b THEN a ELSE b

\* ==== text
Width(ch) == FoldLeft(LAMBDA acc, c : acc + c[2], 0, ch)
\* Boundary offsets, in order
Bounds(ch) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + c[2]), <<0>>, ch)
\* index of the character starting at offset v (0 if none)
CharIx(ch, v) == LET b == Bounds(ch) IN
                 IF \E i \in 1..Len(ch) : b[i] = v THEN CHOOSE i \in 1..Len(ch) : b[i] = v ELSE 0
Concat(ss) == FoldLeft(LAMBDA acc, c : acc \o c, "", ss)
Slice(ch, s, t) == LET b == Bounds(ch) IN
                   FoldLeft(LAMBDA acc, i : IF b[i] >= s /\ b[i] < t THEN acc \o ch[i][1] ELSE acc,
                            "", [i \in 1..Len(ch) |-> i])

\* ==== tags
Plane(g) == g \cap PlaneTags
\* m = [k |-> "any"] / [k |-> "none"] / [k |-> "alt", a |-> <<conjunctions>>]
Matches(g, m) == CASE m.k = "any"  -> TRUE
                   [] m.k = "none" -> FALSE
                   [] OTHER        -> \E i \in DOMAIN m.a : Range(m.a[i]) \subseteq g
Symbol == {"symbol"}
SymbolMask == [k |-> "alt", a |-> << <<"symbol">> >>]

\* ==== points
Points(ch, nl) == Range(Bounds(ch)) \cup { -k : k \in 1..nl }
Key(e) == <<e.s, e.t, e.c, e.x, e.a, Plane(e.g)>>

\* ==== queries
\* numbers of the edges at a point, in listing order: bare symbols first
At(E, sel(_)) ==
    LET all == [i \in 1..Len(E) |-> i]
    IN  SelectSeq(all, LAMBDA i : sel(E[i]) /\ E[i].imp) \o SelectSeq(all, LAMBDA i : sel(E[i]) /\ ~E[i].imp)
Out(E, v, m) == At(E, LAMBDA e : e.s = v /\ Matches(e.g, m))
In(E, v, m)  == At(E, LAMBDA e : e.t = v /\ Matches(e.g, m))

\* ==== adding
IsSymbolLabel(ch, r) ==
    /\ r.s >= 0 /\ r.t >= 0
    /\ LET i == CharIx(ch, r.s)
       IN /\ i # 0
          /\ r.t = r.s + ch[i][2]
          /\ r.c = "'" \o ch[i][1]
          /\ r.x \in {"", ch[i][1]}
          /\ r.a = <<>>
Bare(ch, r, g) == /\ g = Symbol /\ r.q = <<>> /\ r.w = 0 /\ r.rule = -1 /\ r.h = -1
                  /\ IsSymbolLabel(ch, r)

\* r = [s, t, c, x, a, g, q, w, rule, h]: a request to add an annotation
InheritedTags(E, r) ==
    IF Plane(r.g) # {} THEN r.g
    ELSE r.g \cup UNION { Plane(E[r.q[i]].g) : i \in DOMAIN r.q }

Same(E, r, g) == { i \in 1..Len(E) : /\ E[i].s = r.s /\ E[i].t = r.t /\ E[i].c = r.c /\ E[i].x = r.x
                                     /\ E[i].a = r.a /\ Plane(E[i].g) = Plane(g) }

\* [r |-> outcome, E |-> edges afterwards, ret |-> number of the edge meant]
Add(ch, E, r0) ==
    IF r0.s = r0.t THEN [r |-> "loop", E |-> E, ret |-> 0]
    ELSE IF r0.s >= 0 /\ r0.t >= 0 /\ r0.s > r0.t THEN [r |-> "reversed", E |-> E, ret |-> 0]
    ELSE
    LET g    == InheritedTags(E, r0)
        bare == Bare(ch, r0, g)
        r    == IF bare THEN [r0 EXCEPT !.x = ch[CharIx(ch, r0.s)][1]] ELSE r0
        same == Same(E, r, g)
    IN  IF same = {}
        THEN LET e == [s |-> r.s, t |-> r.t, c |-> r.c, x |-> r.x, a |-> r.a, g |-> g, w |-> r.w,
                       imp |-> bare,
                       p |-> IF bare THEN <<>>
                             ELSE << [g |-> g, l |-> r.q, w |-> r.w, r |-> r.rule, h |-> r.h] >>]
             IN  [r |-> "ok", E |-> Append(E, e), ret |-> Len(E) + 1]
        ELSE LET i == CHOOSE j \in same : \A k \in same : j <= k
                 u == E[i].g \cup g
             IN  IF i \in Range(r.q) THEN [r |-> "self", E |-> E, ret |-> 0]
                 ELSE IF bare /\ E[i].imp THEN [r |-> "ok", E |-> E, ret |-> i]
                 ELSE [r |-> "ok", ret |-> i,
                       E |-> [E EXCEPT ![i].g = u, ![i].w = Max2(@, r.w),
                                       ![i].p = Append(@, [g |-> u, l |-> r.q, w |-> r.w, r |-> r.rule, h |-> r.h])]]

MinScore == -1000000000
Part(ch, E, i, r) ==
    Add(ch, E, [s |-> E[i].s, t |-> E[i].t, c |-> E[i].c, x |-> E[i].x, a |-> E[i].a,
                g |-> r.g \cup Plane(E[i].g), q |-> r.q, w |-> r.w, rule |-> r.rule, h |-> r.h])
Discard(ch, E, i) ==
    Part(ch, E, i, [g |-> {"discarded"}, q |-> <<>>, w |-> MinScore, rule |-> -1, h |-> -1])

SymbolReq(s, t, c, x) == [s |-> s, t |-> t, c |-> c, x |-> x, a |-> <<>>, g |-> Symbol, q |-> <<>>,
                          w |-> 0, rule |-> -1, h |-> -1]
\* bare symbols for every character between two boundaries
Symbols(ch, E, s, t) ==
    LET b == Bounds(ch)
    IN  FoldLeft(LAMBDA acc, i : IF b[i] >= s /\ b[i] < t
                                 THEN Add(ch, acc, SymbolReq(b[i], b[i+1], "'" \o ch[i][1], ch[i][1])).E
                                 ELSE acc,
                 E, [i \in 1..Len(ch) |-> i])

\* ==== corrections
\* Each returns [r, E, nl].  txt is a sequence of characters.
FirstOut(E, v) == Out(E, v, SymbolMask)
CorrInsert(ch, E, nl, here, txt) ==
    IF txt = <<>> THEN [r |-> "ok", E |-> E, nl |-> nl]
    ELSE
    LET step(acc, c) ==
            LET to == -(acc.nl + 1)
            IN  [from |-> to, nl |-> acc.nl + 1,
                 E |-> Add(ch, acc.E, SymbolReq(acc.from, to, "'" \o c, c)).E]
        chain == FoldLeft(step, [from |-> here, nl |-> nl, E |-> E], txt)
        \* the first symbol leaving the place, before the chain is there
        nx == FirstOut(E, here)
    IN  IF nx = <<>> THEN [r |-> "ok", E |-> chain.E, nl |-> chain.nl]
        ELSE LET n == chain.E[nx[1]]
             IN  [r |-> "ok", nl |-> chain.nl,
                  E |-> Add(ch, chain.E, [SymbolReq(chain.from, n.t, n.c, n.x) EXCEPT !.a = n.a]).E]

CorrErase(ch, E, nl, from, to) ==
    IF from = to THEN [r |-> "ok", E |-> E, nl |-> nl]
    ELSE LET nx == FirstOut(E, to)
         IN IF nx = <<>> THEN [r |-> "wrongvertex", E |-> E, nl |-> nl]
            ELSE LET n == E[nx[1]]
                     res == Add(ch, E, [SymbolReq(from, n.t, n.c, n.x) EXCEPT !.a = n.a])
                 IN  [r |-> res.r, E |-> res.E, nl |-> nl]

RECURSIVE CorrReplace(_, _, _, _, _, _)
CorrReplace(ch, E, nl, from, to, txt) ==
    IF txt = <<>> THEN CorrErase(ch, E, nl, from, to)
    ELSE IF from = to THEN CorrInsert(ch, E, nl, from, txt)
    ELSE LET nx == FirstOut(E, from)
         IN IF nx = <<>> THEN [r |-> "wrongvertex", E |-> E, nl |-> nl]
            ELSE LET n  == E[nx[1]]
                     c  == Head(txt)
                     E2 == IF c # n.x THEN Add(ch, E, SymbolReq(from, n.t, "'" \o c, c)).E ELSE E
                 IN  CorrReplace(ch, E2, nl, n.t, to, Tail(txt))

\* Points reachable from V by reading the characters txt along symbol annotations of the listing es
ReadFrom(es, V, txt) ==
    FoldLeft(LAMBDA acc, c : { es[i].t : i \in { j \in DOMAIN es :
                 es[j].s \in acc /\ es[j].c = "'" \o c /\ "symbol" \in Range(es[j].g) } },
             V, txt)

\* ==== well-formedness
WellFormed(ch, nl, E) ==
    \A i \in DOMAIN E :
        /\ {E[i].s, E[i].t} \subseteq Points(ch, nl)
        /\ E[i].s # E[i].t
        /\ (E[i].s >= 0 /\ E[i].t >= 0) => E[i].s < E[i].t
Unique(E) == \A i, j \in DOMAIN E : i # j => Key(E[i]) # Key(E[j])
LinksExist(E) == \A i \in DOMAIN E : \A k \in DOMAIN E[i].p : Range(E[i].p[k].l) \subseteq DOMAIN E
ScoreIsBest(E) == \A i \in DOMAIN E : E[i].p # <<>> =>
        /\ \A k \in DOMAIN E[i].p : E[i].p[k].w <= E[i].w
        /\ E[i].imp \/ \E k \in DOMAIN E[i].p : E[i].p[k].w = E[i].w
TagsAreUnion(E) == \A i \in DOMAIN E : \A k \in DOMAIN E[i].p : E[i].p[k].g \subseteq E[i].g
\* E2 keeps everything E1 recorded
Keeps(E1, E2) ==
    /\ Len(E1) <= Len(E2)
    /\ \A i \in DOMAIN E1 : /\ Key(E1[i]) = Key(E2[i])
                            /\ E1[i].g \subseteq E2[i].g
                            /\ E1[i].w <= E2[i].w
                            /\ IsPrefix(E1[i].p, E2[i].p)
=============================================================================
