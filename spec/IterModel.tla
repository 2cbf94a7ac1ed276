----------------------------- MODULE IterModel -----------------------------
(* Small documents built annotation by annotation, then written out once.  Checked: what the property
   says about the events, said without following IterOps.  With Emit, histories are driver scripts. *)
EXTENDS IterOps, Json

CONSTANTS MaxEdges, Emit, Rich

Chars == << <<"a", 1>>, <<" ", 1>>, <<"b", 1>> >>
Spans == { <<0, 1>>, <<1, 2>>, <<2, 3>>, <<0, 3>> } \cup (IF Rich THEN { <<0, 2>>, <<1, 3>> } ELSE {})
Layers == { {"t"}, {"f"}, {"g"}, {"g", "t"} } \cup (IF Rich THEN { {"h"}, {"f", "d"}, {"t", "discarded"}, {"g", "discarded"} } ELSE {})
Basic == [k |-> "alt", a |-> << <<"t">> >>]
Requests == { [linear |-> li, noalts |-> na, blank |-> b, basic |-> Basic, fb |-> fb, spec |-> sp, sep |-> ",", altsep |-> "|"] :
    li \in BOOLEAN, na \in BOOLEAN, b \in BOOLEAN, fb \in { <<>>, <<"f">> } \cup (IF Rich THEN { <<"d", "f">> } ELSE {}),
    sp \in { <<>>, << <<"g", "/">> >> } \cup (IF Rich THEN { << <<"g", "/">>, <<"h", ";">> >> } ELSE {}) }

VARIABLES es, hist, req
vars == <<es, hist, req>>
None == [linear |-> FALSE]

Lbl(n) == CASE n = 1 -> "A" [] n = 2 -> "B" [] n = 3 -> "C" [] n = 4 -> "D" [] OTHER -> "E"
Edge(sp, g) == [s |-> sp[1], t |-> sp[2], c |-> Lbl(Len(es) + 1), x |-> "", a |-> <<>>, g |-> g, d |-> "discarded" \in g]
AddOp(sp, g) == [op |-> "add", s |-> sp[1], t |-> sp[2], c |-> Lbl(Len(es) + 1), x |-> "", a |-> <<>>,
                 g |-> SetToSeq(g), w |-> 0, rule |-> -1, h |-> -1, seq |-> <<>>]
Flag(b, s) == IF b THEN <<s>> ELSE <<>>
Common(o) == Flag(o.linear, "--linear") \o Flag(o.noalts, "--no-alts") \o Flag(o.blank, "--with-blank") \o <<"--tags", "t">>
             \o (IF o.fb = <<>> THEN <<>> ELSE <<"--fallback-tags">> \o o.fb)
WriteOp(o) == [op |-> "write", tags |-> "t", args |-> TRUE,
    targs |-> Common(o) \o <<"--sep", o.sep>>
              \o (IF o.spec = <<>> THEN <<>> ELSE <<"--spec">> \o FoldLeft(LAMBDA a, p : a \o p, <<>>, o.spec)),
    jargs |-> Common(o) \o <<"--with-args">>
              \o (IF o.spec = <<>> THEN <<>> ELSE <<"--spec">> \o [i \in DOMAIN o.spec |-> o.spec[i][1]])] @@ o

Init == es = <<>> /\ req = None /\ hist = << [op |-> "reset", text |-> "a b", sym |-> FALSE] >>
Build == /\ req = None /\ Len(es) < MaxEdges
         /\ \E sp \in Spans, g \in Layers :
                es' = Append(es, Edge(sp, g)) /\ hist' = Append(hist, AddOp(sp, g))
         /\ UNCHANGED req
Write == /\ req = None /\ es # <<>>
         /\ \E o \in Requests : req' = o /\ hist' = Append(hist, WriteOp(o))
         /\ UNCHANGED es
Next == Build \/ Write
Spec == Init /\ [][Next]_vars
View == <<es, req>>

Order == SelectSeq(<<0, 1, 2, 3>>, LAMBDA v : v \in {0, 3} \/ \E i \in DOMAIN es : v \in {es[i].s, es[i].t})
Evs == Events(Chars, es, Order, 0, req)
Puts == SelectSeq(Evs, LAMBDA e : e.k = "put")
NumOf(p) == CHOOSE i \in DOMAIN es : es[i].c = p.v.c
Visible(i) == /\ ~es[i].d
              /\ req.blank \/ <<es[i].s, es[i].t>> # <<1, 2>>
\* the annotations that make a point's entry
Wanted(i) ==
    /\ Visible(i)
    /\ LET here == { j \in DOMAIN es : es[j].s = es[i].s /\ Visible(j) }
           has(t) == \E j \in here : t \in es[j].g
       IN  \/ "t" \in es[i].g
           \/ /\ ~has("t")
              /\ \E k \in DOMAIN req.fb : req.fb[k] \in es[i].g /\ \A n \in 1..(k - 1) : ~has(req.fb[n])
OnPath(v) == v \in Range(LinePath(es, 0))
Layer(t) == { i \in DOMAIN es : t \in es[i].g /\ ~es[i].d /\ (req.linear => OnPath(es[i].s)) }
GroupIx == UNION { Layer(req.spec[k][1]) : k \in DOMAIN req.spec }
\* inside of a group that was begun: every annotation of a group layer that no other of its layer overlaps
Lone(i, t) == \A j \in Layer(t) : j = i \/ es[j].t <= es[i].s \/ es[j].s >= es[i].t

Written == req # None
Nested == Written => Balanced(Evs, req) /\ Blocks(Evs)
OnceEach == Written => \A i, j \in DOMAIN Puts : i # j => Puts[i].v.c # Puts[j].v.c
OnlyWanted == Written => \A i \in DOMAIN Puts : Wanted(NumOf(Puts[i])) /\ (req.linear => OnPath(es[NumOf(Puts[i])].s))
InOrder == Written => \A i, j \in DOMAIN Puts : i < j =>
              LET a == NumOf(Puts[i]) b == NumOf(Puts[j]) IN es[a].s < es[b].s \/ (es[a].s = es[b].s /\ a < b)
IsPutEdge(i) == \E k \in DOMAIN Puts : NumOf(Puts[k]) = i
Complete == Written =>
    /\ (req.spec = <<>> /\ ~req.noalts) => \A i \in DOMAIN es : (Wanted(i) /\ (req.linear => OnPath(es[i].s))) => IsPutEdge(i)
    /\ (req.spec = <<>> /\ ~req.linear) =>
          \A i \in DOMAIN es : Wanted(i) => \E j \in DOMAIN es : es[j].s = es[i].s /\ IsPutEdge(j)
    /\ (req.noalts) => \A i, j \in DOMAIN es : (i # j /\ IsPutEdge(i) /\ IsPutEdge(j)) => es[i].s # es[j].s
Grouping == Written =>
    /\ req.spec # <<>> => \A i \in DOMAIN es : IsPutEdge(i) => \E g \in GroupIx : es[g].s <= es[i].s
    /\ \A k \in DOMAIN req.spec : \A g \in Layer(req.spec[k][1]) : ~req.noalts =>
          \A i \in DOMAIN es : (Wanted(i) /\ es[i].s >= es[g].s /\ (req.linear => OnPath(es[i].s))) => IsPutEdge(i)
    /\ \A k \in DOMAIN req.spec : LET t == req.spec[k][1] IN
          ~req.linear => \A g \in Layer(t) : Lone(g, t) =>
             Cardinality({ n \in DOMAIN Evs : Evs[n].k = "open" /\ Evs[n].v = t }) >=
             Cardinality({ h \in Layer(t) : Lone(h, t) })
TextHolds == Written => \A i \in DOMAIN Puts : Occurs(TextOf(Puts[i].v), Text(Evs, req))
JsonHolds == (Written /\ Len(req.spec) <= 1) =>
    LET js == JsonTree(Evs, FALSE)
        flat == FoldLeft(LAMBDA a, x : IF "s" \in DOMAIN x THEN Append(a, x) ELSE
                    a \o FoldLeft(LAMBDA b, y : IF "s" \in DOMAIN y THEN Append(b, y) ELSE b \o y.l, <<>>, x.l), <<>>, js)
    IN  flat = [i \in DOMAIN Puts |-> [s |-> TextOf(Puts[i].v)]]
Printed == (Emit /\ Written) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
