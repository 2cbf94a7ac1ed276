------------------------------ MODULE IterOps ------------------------------
(* Writing a document out as a sequence of annotations, in reading order.

   A document is a listing es of annotations [s, t, c, x, a, g, d] (g: set of layers, d: discarded)
   over a text given as characters with their width, ch.  A request o carries
     linear  only along one path: from the first point, always the first annotation listed
     noalts  only the first annotation of every point
     blank   write annotations of white space too
     basic   the layers to be written (a mask)
     fb      what is written at a point that has none of those: the first of these layers that has any
     spec    layers of groups (sentences, lines, ...), as pairs <<layer, separator>>
     sep, altsep  separators between places and between alternatives at one place
   Rendered outputs are folds over the events put / alt / endalt / open / close / flush. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

White == { " ", "\t", "\n", "\f", "\r" }
\* first character (in bytes) of every character of the text
Starts(ch) == FoldLeft(LAMBDA acc, c : Append(acc, acc[Len(acc)] + c[2]), <<0>>, ch)
BlankEdge(ch, e) ==
    /\ e.s >= 0 /\ e.t >= 0
    /\ LET b == Starts(ch) IN \A i \in DOMAIN ch : (b[i] >= e.s /\ b[i] < e.t) => ch[i][1] \in White
Fits(g, m) == CASE m.k = "any" -> TRUE [] m.k = "none" -> FALSE
                [] OTHER -> \E i \in DOMAIN m.a : { m.a[i][k] : k \in DOMAIN m.a[i] } \subseteq g

FromPoint(es, v) == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : es[i].s = v)
Leaving(es, v) == SelectSeq(FromPoint(es, v), LAMBDA i : ~es[i].d)

\* the points met
RECURSIVE LinePath(_, _)
LinePath(es, v) == LET q == FromPoint(es, v)
                   IN  IF q = <<>> THEN <<v>> ELSE <<v>> \o LinePath(es, es[q[1]].t)
Met(es, order, first, o) == IF o.linear THEN LinePath(es, first) ELSE order

\* what there is to write at a point
Candidates(ch, es, v, o) == SelectSeq(Leaving(es, v), LAMBDA i : o.blank \/ ~BlankEdge(ch, es[i]))
Chosen(ch, es, v, o) ==
    LET c == Candidates(ch, es, v, o)
        basic == SelectSeq(c, LAMBDA i : Fits(es[i].g, o.basic))
        layers == SelectSeq(o.fb, LAMBDA t : \E k \in DOMAIN c : t \in es[c[k]].g)
        all == IF basic # <<>> THEN basic
               ELSE IF layers = <<>> THEN <<>>
               ELSE SelectSeq(c, LAMBDA i : layers[1] \in es[i].g)
    IN  IF o.noalts /\ all # <<>> THEN << all[1] >> ELSE all

\* ==== groups
\* A group begins with the first annotation of its layer listed at a point, unless another group of
\* the layer has begun and not come to its end; it reaches as far as the next one of the layer.
GroupLayers(o) == [i \in DOMAIN o.spec |-> o.spec[i][1]]
Closed == [open |-> FALSE, end |-> 0, over |-> TRUE]
\* state of the group of layer t on the way through the points
GroupAt(es, v, t, g) ==
    LET g1 == IF g.open /\ g.end = v THEN [g EXCEPT !.over = TRUE] ELSE g
        cand == SelectSeq(Leaving(es, v), LAMBDA i : t \in es[i].g)
    IN  IF g1.over /\ cand # <<>>
        THEN [ev |-> IF g1.open THEN << "close", "open" >> ELSE << "open" >>,
              g |-> [open |-> TRUE, end |-> es[cand[1]].t, over |-> FALSE]]
        ELSE [ev |-> <<>>, g |-> g1]

Evt(k, v) == [k |-> k, v |-> v]
Put(e) == [k |-> "put", v |-> [c |-> e.c, x |-> e.x, a |-> e.a]]
\* events: at each point the groups, then one block of alternatives
Events(ch, es, order, first, o) ==
    LET Ts == GroupLayers(o)
        at(acc, v) ==
            LET ga == [k \in DOMAIN Ts |-> GroupAt(es, v, Ts[k], acc.g[k])]
                inside == Ts = <<>> \/ \E k \in DOMAIN Ts : ga[k].g.open
                q == IF inside THEN Chosen(ch, es, v, o) ELSE <<>>
            IN  [g |-> [k \in DOMAIN Ts |-> ga[k].g],
                 ev |-> acc.ev
                        \o FoldLeft(LAMBDA a, k : a \o [n \in DOMAIN ga[k].ev |-> Evt(ga[k].ev[n], Ts[k])],
                                    <<>>, [k \in DOMAIN Ts |-> k])
                        \o (IF q = <<>> THEN <<>>
                            ELSE <<Evt("alt", "")>> \o [n \in DOMAIN q |-> Put(es[q[n]])] \o <<Evt("endalt", "")>>)]
        x == FoldLeft(at, [g |-> [k \in DOMAIN Ts |-> Closed], ev |-> <<>>], Met(es, order, first, o))
    IN  x.ev \o FoldLeft(LAMBDA a, k : IF x.g[k].open THEN Append(a, Evt("close", Ts[k])) ELSE a, <<>>, [k \in DOMAIN Ts |-> k])
             \o <<Evt("flush", "")>>

\* ==== comparing: groups of different layers may be opened and closed in any order at one point
IsGroup(e) == e.k \in {"open", "close"}
Content(evs) == SelectSeq(evs, LAMBDA e : ~IsGroup(e))
OfLayer(evs, t) == SelectSeq(evs, LAMBDA e : ~IsGroup(e) \/ e.v = t)
SameEvents(a, b, o) ==
    /\ Content(a) = Content(b)
    /\ \A i \in DOMAIN o.spec : OfLayer(a, o.spec[i][1]) = OfLayer(b, o.spec[i][1])
    /\ Cardinality({ i \in DOMAIN a : IsGroup(a[i]) }) = Cardinality({ i \in DOMAIN b : IsGroup(b[i]) })

\* ==== as text
TextOf(v) == IF v.x = "" THEN v.c ELSE v.x
Occurs(p, s) == p = "" \/ \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
Sep(a, sep, b) == IF a = "" THEN b ELSE a \o sep \o b
\* main: finished; block: places of the group being written; alt: the place being written;
\* sepq: separators of the groups begun since, each once
Text(evs, o) ==
    LET sepOf(t) == (CHOOSE i \in DOMAIN o.spec : o.spec[i][1] = t)
        step(w, e) ==
            CASE e.k = "alt" -> [w EXCEPT !.alt = ""]
              [] e.k = "put" -> [w EXCEPT !.alt = Sep(w.alt, o.altsep, TextOf(e.v))]
              [] e.k = "endalt" -> [w EXCEPT !.alt = "", !.block = IF w.alt = "" THEN @ ELSE Sep(w.block, o.sep, w.alt)]
              [] e.k = "open" ->
                   LET s == o.spec[sepOf(e.v)][2]
                   IN  IF w.main = "" \/ Occurs(s, w.sepq) THEN w ELSE [w EXCEPT !.sepq = @ \o s]
              [] e.k = "close" ->
                   IF w.block = "" THEN w
                   ELSE [w EXCEPT !.main = @ \o w.sepq \o w.block, !.sepq = "", !.block = ""]
              [] OTHER -> [w EXCEPT !.main = @ \o w.block, !.block = ""]
    IN  FoldLeft(step, [main |-> "", block |-> "", alt |-> "", sepq |-> ""], evs).main \o "\n"

\* ==== as JSON: a tree of [s |-> string], [l |-> list], [o |-> object]
Leaf(v, args) == IF args THEN [o |-> [category |-> v.c, text |-> v.x, values |-> v.a]] ELSE [s |-> TextOf(v)]
JsonTree(evs, args) ==
    LET push(w, el) == [w EXCEPT ![Len(w)] = Append(@, el)]
        pop(w, flat) ==
            LET top == w[Len(w)]
                rest == SubSeq(w, 1, Len(w) - 1)
            IN  IF top = <<>> THEN rest
                ELSE IF flat /\ Len(top) = 1 THEN push(rest, top[1])
                ELSE push(rest, [l |-> top])
        step(w, e) ==
            CASE e.k \in {"alt", "open"} -> Append(w, <<>>)
              [] e.k = "put" -> push(w, Leaf(e.v, args))
              [] e.k = "endalt" -> pop(w, TRUE)
              [] e.k = "close" -> pop(w, FALSE)
              [] OTHER -> w
    IN  FoldLeft(step, << <<>> >>, evs)[1]

\* ==== what a user relies on, said of the events alone
Depth(evs, t, n) == Cardinality({ i \in 1..n : evs[i].k = "open" /\ evs[i].v = t })
                    - Cardinality({ i \in 1..n : evs[i].k = "close" /\ evs[i].v = t })
Balanced(evs, o) ==
    \A i \in DOMAIN o.spec :
        /\ \A n \in DOMAIN evs : Depth(evs, o.spec[i][1], n) \in {0, 1}
        /\ Depth(evs, o.spec[i][1], Len(evs)) = 0
Blocks(evs) ==      \* alternatives are never nested nor empty, and everything is put inside of them
    LET c == Content(evs) IN
    \A i \in DOMAIN c : CASE c[i].k = "alt" -> c[i+1].k = "put"
                           [] c[i].k = "put" -> i > 1 /\ c[i-1].k \in {"alt", "put"} /\ c[i+1].k \in {"put", "endalt"}
                           [] c[i].k = "endalt" -> i > 1 /\ c[i-1].k = "put"
                           [] OTHER -> i = Len(c)
=============================================================================
