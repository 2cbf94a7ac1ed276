---------------------------- MODULE LatticeTrace ----------------------------
(* Validates traces recorded from the real Lattice (drivers/lattice_driver.cpp).

   Every line of the trace is one public call with its arguments, its outcome
   and the complete document observed after it.  FACET selects the property:
     "state"  - the document after the call is the one the specification
                computes from the document before it (P01, P02, P04)
     "query"  - layer queries against the document observed (P03)
     "prov"   - provenance and paths against the document observed (P05)
     "walk"   - enumeration of points and sorted listing (P06)
   A line the specification does not allow stops the validation: the
   POSTCONDITION reports it. *)
EXTENDS LatticeOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
FACET == IOEnv.FACET

VARIABLES l,    \* next line
          E,    \* annotations in creation order (facet "state" only)
          ch,   \* text
          nl    \* number of loose points
vars == <<l, E, ch, nl>>

Ev == Trace[l]
HasF(r, f) == f \in DOMAIN r

\* ==== projections
PlaneOf(g) == Range(g) \cap PlaneTags
ObsKey(e) == <<e.s, e.t, e.c, e.x, e.a, PlaneOf(e.g)>>
ObsProj(es) ==
    [i \in DOMAIN es |->
       [k |-> ObsKey(es[i]), g |-> Range(es[i].g), w |-> es[i].w,
        p |-> [j \in DOMAIN es[i].p |->
                 [g |-> Range(es[i].p[j].g), w |-> es[i].p[j].w, r |-> es[i].p[j].r, h |-> es[i].p[j].h,
                  l |-> [n \in DOMAIN es[i].p[j].l |->
                           IF es[i].p[j].l[n] = 0 THEN <<"unlisted annotation">> ELSE ObsKey(es[es[i].p[j].l[n]])]]]]]
SpecProj(EE) ==
    [i \in DOMAIN EE |->
       [k |-> Key(EE[i]), g |-> EE[i].g, w |-> EE[i].w,
        p |-> [j \in DOMAIN EE[i].p |->
                 [g |-> EE[i].p[j].g, w |-> EE[i].p[j].w, r |-> EE[i].p[j].r, h |-> EE[i].p[j].h,
                  l |-> [n \in DOMAIN EE[i].p[j].l |-> Key(EE[EE[i].p[j].l[n]])]]]]]

\* the number of the specification's edge with the key of the q-th edge of the listing es
ToSpec(EE, es, q) == CHOOSE i \in DOMAIN EE : Key(EE[i]) = ObsKey(es[q])

\* what the document says about its own annotations
Reported(st) ==
    LET b == Range(Bounds(st.ch))
    IN  /\ st.nv = 1 + Len(st.ch) + st.nl
        /\ \A i \in DOMAIN st.es :
            LET e == st.es[i]
            IN  IF e.s >= 0 /\ e.t >= 0
                THEN /\ e.s \in b /\ e.t \in b /\ e.s < e.t
                     /\ e.b = e.s /\ e.e = e.t /\ e.n = e.t - e.s
                     /\ e.y = Slice(st.ch, e.s, e.t)
                     /\ e.d = ("discarded" \in Range(e.g))
                ELSE /\ e.s # e.t /\ e.s >= -st.nl /\ e.t >= -st.nl
                     /\ e.b = -1

\* The listing at every point: bare characters first, then in creation order
Ordered(EE, es) ==
    \A v \in { es[i].s : i \in DOMAIN es } :
        LET o == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : es[i].s = v)
        IN  [i \in DOMAIN o |-> ObsKey(es[o[i]])] =
            LET m == Out(EE, v, [k |-> "any"]) IN [i \in DOMAIN m |-> Key(EE[m[i]])]

SameDoc(EE, cc, nn, st) ==
    /\ st.ch = cc
    /\ st.nl = nn
    /\ Len(st.es) = Len(EE)
    /\ Range(ObsProj(st.es)) = Range(SpecProj(EE))
    /\ Ordered(EE, st.es)
    /\ Reported(st)

Mismatch(what, exp, obs) ==
    /\ PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>)
    /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

\* ==== facet "state"
Req(e, prev) == [s |-> e.s, t |-> e.t, c |-> e.c, x |-> e.x, a |-> e.a, g |-> Range(e.g),
                 q |-> [i \in DOMAIN e.q |-> ToSpec(E, prev, e.q[i])],
                 w |-> e.w * 1000, rule |-> e.rule, h |-> e.h]

\* [r, E, ch, nl, ret] the specification's next document
Expected(e, prev) ==
    LET stay(res) == [r |-> res, E |-> E, ch |-> ch, nl |-> nl, ret |-> 0]
    IN
    CASE e.op = "reset" ->
            [r |-> "ok", ch |-> e.st.ch, nl |-> 0, ret |-> 0,
             E |-> IF e.sym THEN Symbols(e.st.ch, <<>>, 0, Width(e.st.ch)) ELSE <<>>]
      [] e.op = "append" ->
            LET c2 == ch \o e.ch
            IN [r |-> "ok", ch |-> c2, nl |-> nl, ret |-> 0,
                E |-> IF e.sym THEN Symbols(c2, E, Width(ch), Width(c2)) ELSE E]
      [] e.op = "symbols" ->
            [r |-> "ok", ch |-> ch, nl |-> nl, ret |-> 0, E |-> Symbols(ch, E, e.s, e.t)]
      [] e.op = "loose" ->
            [r |-> "ok", ch |-> ch, nl |-> nl + 1, ret |-> 0, E |-> E]
      [] e.op = "add" ->
            LET x == Add(ch, E, Req(e, prev)) IN [r |-> x.r, E |-> x.E, ret |-> x.ret, ch |-> ch, nl |-> nl]
      [] e.op = "part" ->
            LET x == Part(ch, E, ToSpec(E, prev, e.e1),
                          [g |-> Range(e.g), q |-> [i \in DOMAIN e.q |-> ToSpec(E, prev, e.q[i])],
                           w |-> e.w * 1000, rule |-> e.rule, h |-> e.h])
            IN [r |-> x.r, E |-> x.E, ret |-> x.ret, ch |-> ch, nl |-> nl]
      [] e.op = "discard" ->
            LET x == Discard(ch, E, ToSpec(E, prev, e.e1)) IN [r |-> x.r, E |-> x.E, ret |-> 0, ch |-> ch, nl |-> nl]
      [] e.op = "cins" ->
            LET x == CorrInsert(ch, E, nl, e.s, e.cx) IN [r |-> x.r, E |-> x.E, ret |-> 0, ch |-> ch, nl |-> x.nl]
      [] e.op = "cers" ->
            LET x == CorrErase(ch, E, nl, e.s, e.t) IN [r |-> x.r, E |-> x.E, ret |-> 0, ch |-> ch, nl |-> x.nl]
      [] e.op = "crep" ->
            LET x == CorrReplace(ch, E, nl, e.s, e.t, e.cx) IN [r |-> x.r, E |-> x.E, ret |-> 0, ch |-> ch, nl |-> x.nl]
      [] OTHER -> stay(e.r)

\* the corrected text can be read, and the original one still can (P04)
Readable(e, prev) ==
    LET es == e.st.es
        \* the character that followed a point before: the first symbol annotation listed there
        followers(v) == SelectSeq([i \in 1..Len(prev) |-> i],
                                  LAMBDA i : prev[i].s = v /\ "symbol" \in Range(prev[i].g))
        reads(v, f) == \E i \in DOMAIN es : /\ es[i].s = v /\ es[i].t = prev[f].t
                                             /\ es[i].c = prev[f].c /\ "symbol" \in Range(es[i].g)
    IN
    /\ (e.op = "cins" /\ e.r = "ok") =>
          LET R == ReadFrom(es, {e.s}, e.cx)
              f == followers(e.s)
          IN /\ R # {}
             /\ f # <<>> => \E v \in R : reads(v, f[1])
    /\ (e.op = "cers" /\ e.r = "ok" /\ e.s # e.t) => reads(e.s, followers(e.t)[1])
    /\ (e.op = "crep" /\ e.r = "ok") => ReadFrom(es, {e.s}, e.cx) # {}

StateStep ==
    LET e == Ev
        prev == IF l = 1 \/ e.op = "reset" THEN <<>> ELSE Trace[l-1].st.es
        x == Expected(e, prev)
    IN  /\ Check(e.r = x.r, "outcome", x.r, e.r)
        /\ Check(SameDoc(x.E, x.ch, x.nl, e.st), "document",
                 Range(SpecProj(x.E)) \ Range(ObsProj(e.st.es)), Range(ObsProj(e.st.es)) \ Range(SpecProj(x.E)))
        /\ (x.ret # 0 /\ HasF(e, "ret")) =>
              Check(e.ret # 0 /\ ObsKey(e.st.es[e.ret]) = Key(x.E[x.ret]), "edge returned", x.ret, e.ret)
        /\ (e.op \in {"cins", "cers", "crep"}) => Check(Readable(e, prev), "reading", "", "")
        /\ e.op = "count" => Check(e.res = Cardinality({ i \in DOMAIN x.E : x.E[i].s = e.s /\ x.E[i].t = e.t }),
                                   "count", "", e.res)
        /\ E' = x.E /\ ch' = x.ch /\ nl' = x.nl

\* ==== observed-state facets
\* listing order of the observed document at a point
OutObs(es, v) == SelectSeq([i \in 1..Len(es) |-> i], LAMBDA i : es[i].s = v)
Filter(es, q, m) == SelectSeq(q, LAMBDA i : Matches(Range(es[i].g), m))
IsPerm(q, S) == Len(q) = Cardinality(S) /\ Range(q) = S
MatchSet(es, m) == { i \in DOMAIN es : Matches(Range(es[i].g), m) }

Unchanged(e) == l > 1 => Check(e.st = Trace[l-1].st, "query changed the document", "", "")

\* order of offsets of the ends that lie in the text never decreases
NonDecr(q, f(_)) == \A i, j \in DOMAIN q : (i < j /\ f(q[i]) >= 0 /\ f(q[j]) >= 0) => f(q[i]) <= f(q[j])

QueryOK(e) ==
    LET es == e.st.es
    IN
    CASE e.op = "out" ->
            Check(e.res = Filter(es, OutObs(es, e.v), e.m), "out", Filter(es, OutObs(es, e.v), e.m), e.res)
      [] e.op = "in" ->
            LET want == { i \in MatchSet(es, e.m) : es[i].t = e.v }
            IN Check(IsPerm(e.res, want), "in", want, e.res)
      [] e.op = "firstout" ->
            LET q == Filter(es, OutObs(es, e.v), e.m)
            IN IF q = <<>> THEN Check(e.r = "noedge", "firstout", "noedge", e.r)
               ELSE Check(e.r = "ok" /\ e.res = q[1], "firstout", q[1], e.res)
      [] e.op = "firstin" ->
            LET want == { i \in MatchSet(es, e.m) : es[i].t = e.v }
            IN IF want = {} THEN Check(e.r = "noedge", "firstin", "noedge", e.r)
               ELSE Check(e.r = "ok" /\ e.res \in want, "firstin", want, e.res)
      [] e.op = "bysource" ->
            /\ Check(IsPerm(e.res, MatchSet(es, e.m)), "by source", MatchSet(es, e.m), e.res)
            /\ Check(NonDecr(e.res, LAMBDA i : es[i].s), "by source order", "", e.res)
            /\ Check(\A i, j \in DOMAIN e.res : (i < j /\ es[e.res[i]].s = es[e.res[j]].s) => e.res[i] < e.res[j],
                     "by source order at a point", "", e.res)
      [] e.op = "bytarget" ->
            /\ Check(IsPerm(e.res, MatchSet(es, e.m)), "by target", MatchSet(es, e.m), e.res)
            /\ Check(NonDecr(e.res, LAMBDA i : es[i].t), "by target order", "", e.res)
      [] OTHER -> TRUE

\* In-lists follow creation order too: later queries agree with earlier ones on the order of
\* the annotations both return (checked through the full in-list asked right before).
\* ==== provenance
Links(es, i) == FoldLeft(LAMBDA acc, p : acc \o p.l, <<>>, es[i].p)
RECURSIVE Origin(_, _, _, _)
Origin(es, i, tag, fuel) ==
    LET ls == Links(es, i)
    IN  IF ls = <<>> \/ fuel = 0 THEN 0
        ELSE IF tag \in Range(es[ls[1]].g) THEN ls[1]
        ELSE Origin(es, ls[1], tag, fuel - 1)
RECURSIVE Path(_, _, _, _, _)
Path(es, v, m, skip, acc) ==
    LET q == Filter(es, OutObs(es, v), m)
        b == SelectSeq(OutObs(es, v), LAMBDA i : "token" \in Range(es[i].g) /\ es[i].c = "B")
    IN  IF q # <<>> THEN Path(es, es[q[Len(q)]].t, m, skip, Append(acc, q[Len(q)]))
        ELSE IF skip /\ b # <<>> THEN Path(es, es[b[Len(b)]].t, m, skip, Append(acc, b[Len(b)]))
        ELSE [p |-> acc, v |-> v]

ProvOK(e) ==
    LET es == e.st.es
    IN
    CASE e.op = "parent" ->
            LET q == Filter(es, Links(es, e.e1), e.m)
            IN Check(e.res = IF q = <<>> THEN 0 ELSE q[1], "parent", q, e.res)
      [] e.op = "children" ->
            LET cand == SelectSeq(OutObs(es, es[e.e1].s),
                                  LAMBDA i : es[i].t = es[e.e1].t /\ Matches(Range(es[i].g), e.m))
                want == FoldLeft(LAMBDA acc, i : acc \o SelectSeq([k \in DOMAIN Links(es, i) |-> i],
                                                                  LAMBDA k : TRUE),
                                 <<>>, cand)
                q == FoldLeft(LAMBDA acc, i :
                        acc \o [k \in 1..Len(SelectSeq(Links(es, i), LAMBDA n : n = e.e1)) |-> i], <<>>, cand)
            IN Check(e.res = q, "children", q, e.res)
      [] e.op = "origin" ->
            /\ Check(e.res = Origin(es, e.e1, e.tag, Len(es) + 1), "origin", Origin(es, e.e1, e.tag, Len(es) + 1), e.res)
            /\ LET o == Origin(es, e.e1, "lemma", Len(es) + 1)
               IN Check(e.lemma = IF o = 0 THEN <<>> ELSE << es[o].x >>, "lemma", o, e.lemma)
      [] e.op \in {"path", "pathskip"} ->
            LET x == Path(es, e.v, e.m, e.op = "pathskip", <<>>)
            IN /\ Check(e.r = "ok", "path outcome", "ok", e.r)
               /\ Check(e.res = x.p /\ e["end"] = x.v, "path", x, <<e.res, e["end"]>>)
               /\ Check(e.size = Len(x.p) /\ e.nth = x.p, "sequence access", x.p, <<e.size, e.nth>>)
               /\ Check(x.p # <<>> => (e.fst = x.p[1] /\ e.lst = x.p[Len(x.p)]), "first/last of path", x.p, <<e.fst, e.lst>>)
               /\ Check(e.stx = Concat([i \in DOMAIN x.p |-> es[x.p[i]].y]), "path text", "", e.stx)
      [] OTHER -> TRUE

\* A derivation recorded for an annotation is the one it was added with, link by link (P05):
\* the last derivation of the edge returned by add/part carries exactly the links asked for.
DerivOK(e) ==
    (e.op \in {"add", "part"} /\ e.r = "ok" /\ e.ret # 0 /\ e.q # <<>>) =>
        LET es == e.st.es
            prev == Trace[l-1].st.es
            ps == es[e.ret].p
        IN  Check(ps # <<>>
                  /\ [k \in DOMAIN ps[Len(ps)].l |->
                        IF ps[Len(ps)].l[k] = 0 THEN <<>> ELSE ObsKey(es[ps[Len(ps)].l[k]])]
                     = [k \in DOMAIN e.q |-> ObsKey(prev[e.q[k]])],
                  "derivation", e.q, ps)
\* earlier derivations keep meaning the same annotations whatever is added later
DerivStable(e) ==
    (l > 1 /\ e.op # "reset") =>
        LET es == e.st.es
            prev == Trace[l-1].st.es
            view(xs, i) == [j \in DOMAIN xs[i].p |-> [k \in DOMAIN xs[i].p[j].l |->
                               IF xs[i].p[j].l[k] = 0 THEN <<>> ELSE ObsKey(xs[xs[i].p[j].l[k]])]]
        IN  Check(\A i \in DOMAIN prev : \E j \in DOMAIN es :
                     ObsKey(es[j]) = ObsKey(prev[i]) /\ IsPrefix(view(prev, i), view(es, j)),
                  "derivations kept", "", "")

\* ==== points
WalkOK(e) ==
    LET st == e.st
        es == st.es
        all == Points(st.ch, st.nl)
        used == { es[i].s : i \in DOMAIN es } \cup { es[i].t : i \in DOMAIN es }
        pos(v) == CHOOSE k \in DOMAIN e.res : e.res[k] = v
    IN
    e.op = "vertices" =>
        /\ Check(e.r = "ok", "walk outcome", "ok", e.r)
        /\ Check(Cardinality(Range(e.res)) = Len(e.res), "each point once", "", e.res)
        /\ IF e.skip THEN Check(used \subseteq Range(e.res) /\ Range(e.res) \subseteq all, "points", used, e.res)
           ELSE Check(Range(e.res) = all, "points", all, e.res)
        /\ Check(\A i \in DOMAIN es : pos(es[i].s) < pos(es[i].t), "order", "", e.res)
        /\ Check(\A i, j \in DOMAIN e.res : (i < j /\ e.res[i] >= 0 /\ e.res[j] >= 0) => e.res[i] < e.res[j],
                 "text order", "", e.res)
SkipUseless(e) ==   \* skipping leaves out inner boundaries nothing is attached to
    (e.op = "vertices" /\ e.skip) =>
        LET st == e.st es == st.es
            used == { es[i].s : i \in DOMAIN es } \cup { es[i].t : i \in DOMAIN es }
        IN Check(\A k \in DOMAIN e.res : e.res[k] >= 0 /\ e.res[k] # Width(st.ch) => e.res[k] \in used,
                 "useless points", used, e.res)
FirstLast(e) ==
    e.op = "vertices" =>
        LET es == e.st.es
        IN /\ Check((\A i \in DOMAIN es : es[i].t # 0) => e.first = 0, "first point", 0, e.first)
           /\ Check((\A i \in DOMAIN es : es[i].s # Width(e.st.ch)) => e["last"] = Width(e.st.ch), "last point", "", e["last"])
SortedOK(e) ==
    LET es == e.st.es IN
    e.op \in {"bysource", "bytarget"} =>
        Check(IsPerm(e.res, MatchSet(es, e.m)), "sorted listing", MatchSet(es, e.m), e.res)

\* ==== the trace machine
QueryOps == {"out", "in", "firstout", "firstin", "bysource", "bytarget", "vertices", "path", "pathskip",
             "parent", "children", "origin", "count", "nop"}
Step ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ CASE FACET = "state" -> StateStep
         [] FACET = "query" ->
              /\ Ev.op \in QueryOps => Unchanged(Ev)
              /\ QueryOK(Ev)
              /\ UNCHANGED <<E, ch, nl>>
         [] FACET = "prov" ->
              /\ ProvOK(Ev) /\ DerivOK(Ev) /\ DerivStable(Ev)
              /\ UNCHANGED <<E, ch, nl>>
         [] FACET = "walk" ->
              /\ WalkOK(Ev) /\ SkipUseless(Ev) /\ FirstLast(Ev) /\ SortedOK(Ev)
              /\ UNCHANGED <<E, ch, nl>>
Init == l = 1 /\ E = <<>> /\ ch = <<>> /\ nl = 0
Spec == Init /\ [][Step]_vars
\* invariants of the specification, evaluated at every step of every real execution
Inv == FACET = "state" => /\ WellFormed(ch, nl, E) /\ Unique(E) /\ LinksExist(E)
                          /\ TagsAreUnion(E) /\ ScoreIsBest(E)
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
