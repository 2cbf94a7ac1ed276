----------------------------- MODULE ConvModel -----------------------------
(* Small documents built annotation by annotation, then one run of the selector, the anti-selector or the
   joiner.  Checked: what the property says about the result, independently of how ConvOps computes
   it.  With Emit every history is printed as a driver script. *)
EXTENDS ConvOps, Json

CONSTANTS Kind,         \* "select", "anti" or "join"
          MaxEdges, Emit

Text == << <<"a", 1>>, <<"b", 1>> >>
Spans == { <<0, 1>>, <<1, 2>>, <<0, 2>> }
AnyTag == [k |-> "any", a |-> <<>>]
M(t) == [k |-> "alt", a |-> << <<t>> >>]
CD == << <<"P", << <<"P">> >> >>, <<"P&k=v|Q", << <<"P", "k=v">>, <<"Q">> >> >> >>
R(sp, c, a, g, q) == [s |-> sp[1], t |-> sp[2], c |-> c, x |-> "", a |-> a, g |-> g, q |-> q, w |-> 0,
                      rule |-> -1, h |-> -1]

VARIABLES E, hist, done, before, cfg
vars == <<E, hist, done, before, cfg>>

\* position in the document's listing (points in text order, then in creation order)
Listing == FoldLeft(LAMBDA acc, v : acc \o Out(E, v, AnyTag), <<>>, <<0, 1, 2>>)
PosOf(i) == (CHOOSE k \in DOMAIN Listing : Listing[k] = i) - 1

Requests ==
    CASE Kind = "select" ->
            { R(sp, c, <<>>, {"token"}, <<>>) : sp \in Spans, c \in {"T", "B"} }
            \cup { R(sp, "X", a, {"conditional"}, <<>>) : sp \in Spans,
                   a \in { <<>>, << <<"condition", "*">> >>, << <<"condition", "P">> >>, << <<"condition", "P&k=v|Q">> >> } }
            \cup { R(sp, c, a, {"t"}, <<>>) : sp \in { <<0, 1>>, <<0, 2>> }, c \in {"P"}, a \in { <<>>, << <<"k", "v">> >> } }
      [] Kind = "anti" ->
            { R(sp, c, <<>>, g, <<>>) : sp \in Spans, c \in {"T", "B"}, g \in { {"token"}, {"token", "!x"}, {"conditional"}, {"conditional", "token"} } }
      [] OTHER ->
            { R(<<0, 1>>, c, <<>>, {"token"}, <<>>) : c \in {"T", "U"} }
            \cup { R(<<0, 1>>, c, << <<"k", "l">> >>, {"form"}, q) : c \in {"F", "G"}, q \in { <<>> } \cup { <<i>> : i \in DOMAIN E } }
            \cup { R(<<0, 1>>, "V", a, {"val"}, q) : a \in { <<>>, << <<"k", "r">>, <<"m", "r">> >> }, q \in { <<i>> : i \in DOMAIN E } }
Configs ==
    CASE Kind = "select" ->
            { [fb |-> M("token"), in |-> M("conditional"), test |-> t, g |-> g, blank |-> b, cd |-> CD] :
                t \in {AnyTag, M("t")}, g \in { {"selected", "token"}, {"selected"} }, b \in BOOLEAN }
      [] Kind = "anti" ->
            { [fb |-> M("token"), in |-> M("conditional"), g |-> g, blank |-> b] :
                g \in { {"selected", "token"}, {"selected"} }, b \in BOOLEAN }
      [] OTHER ->
            { [left |-> M("form"), right |-> M("val"), g |-> g, ltext |-> TRUE, lcat |-> lc, attrs |-> at,
               outer |-> o, ext |-> x] :
                g \in { {"joined", "!y"}, {"joined"} }, lc \in BOOLEAN, at \in {"left", "right", "merge"},
                o \in BOOLEAN, x \in BOOLEAN }

MaskStr(m) == IF m.k = "any" THEN "" ELSE m.a[1][1]
Tags(g) == CASE g = {"selected", "token"} -> "selected,token" [] g = {"selected"} -> "selected"
             [] g = {"joined", "!y"} -> "joined,!y" [] OTHER -> "joined"
RunScript(c, again) ==
    CASE Kind = "select" ->
            [op |-> "selector", fb |-> c.fb, in |-> c.in, test |-> c.test, g |-> SetToSeq(c.g), blank |-> c.blank, cd |-> CD,
             again |-> again,
             args |-> <<"--in-tag", MaskStr(c.in), "--fallback-tag", MaskStr(c.fb), "--out-tags", Tags(c.g)>>
                      \o (IF c.test.k = "any" THEN <<>> ELSE <<"--test-tag", MaskStr(c.test)>>)
                      \o (IF c.blank THEN <<"--with-blank">> ELSE <<>>)]
      [] Kind = "anti" ->
            [op |-> "antiselector", fb |-> c.fb, in |-> c.in, g |-> SetToSeq(c.g), blank |-> c.blank, again |-> again,
             args |-> <<"--in-tag", MaskStr(c.in), "--fallback-tag", MaskStr(c.fb), "--out-tags", Tags(c.g)>>
                      \o (IF c.blank THEN <<"--with-blank">> ELSE <<>>)]
      [] OTHER ->
            [op |-> "joiner", left |-> [k |-> "alt", a |-> << <<"form", "!x">> >>], right |-> [k |-> "alt", a |-> << <<"val", "!x">> >>],
             g |-> SetToSeq(c.g), ltext |-> c.ltext, lcat |-> c.lcat, attrs |-> c.attrs, outer |-> c.outer, ext |-> c.ext,
             again |-> again,
             args |-> <<"--lang", "x", "--left-mask", "form", "--right-mask", "val", "--out-tags", Tags(c.g)>>
                      \o (IF c.lcat THEN <<>> ELSE <<"--take-right-category">>)
                      \o (CASE c.attrs = "left" -> <<"--take-left-attributes">>
                            [] c.attrs = "right" -> <<"--take-right-attributes">> [] OTHER -> <<>>)
                      \o (IF c.outer THEN <<>> ELSE <<"--no-outer-join">>)
                      \o (IF c.ext THEN <<"--extended-outer-join">> ELSE <<>>)]

\* the joiner works within a language, whose plane every annotation of it carries
WithLang(r) == IF Kind = "join" THEN [r EXCEPT !.g = @ \cup {"!x"}] ELSE r
LangCfg(c) == IF Kind = "join" THEN [c EXCEPT !.left = [k |-> "alt", a |-> << <<"form", "!x">> >>],
                                              !.right = [k |-> "alt", a |-> << <<"val", "!x">> >>]] ELSE c
Build == /\ ~done /\ Len(E) < MaxEdges
         /\ \E r0 \in Requests :
              LET r == WithLang(r0)
                  x == Add(Text, E, r)
              IN  /\ x.r = "ok" /\ Len(x.E) > Len(E)
                  /\ E' = x.E
                  /\ hist' = Append(hist, [op |-> "add", s |-> r.s, t |-> r.t, c |-> r.c, x |-> r.x, a |-> r.a,
                                           g |-> SetToSeq(r.g), seq |-> [k \in DOMAIN r.q |-> PosOf(r.q[k])],
                                           w |-> 0, rule |-> -1, h |-> -1])
         /\ UNCHANGED <<done, before, cfg>>
Result(EE, c) == CASE Kind = "select" -> [r |-> "ok", E |-> Select(Text, EE, <<0, 1, 2>>, c)]
                   [] Kind = "anti" -> [r |-> "ok", E |-> Anti(Text, EE, <<0, 1, 2>>, c)]
                   [] OTHER -> Join(Text, EE, <<0, 1, 2>>, c)
RunIt == /\ ~done /\ E # <<>>
         /\ \E c0 \in Configs :
              LET c == LangCfg(c0) x == Result(E, c)
              IN  /\ x.r = "ok" \/ Kind = "join"
                  /\ E' = x.E
                  /\ cfg' = << c @@ [r |-> x.r] >>
                  /\ hist' = Append(hist, RunScript(c0, FALSE))
         /\ before' = E
         /\ done' = TRUE
Init == E = <<>> /\ hist = << [op |-> "reset", text |-> "ab", sym |-> FALSE] >> /\ done = FALSE /\ before = <<>> /\ cfg = <<>>
Next == Build \/ RunIt
Spec == Init /\ [][Next]_vars
Printed == (Emit /\ done) => PrintT("SCRIPT " \o ToJson(hist))
View == <<E, done, before, cfg>>

\* ==== the property
C == cfg[1]
Marked(i, t) == t \in E[i].g
Has(m, i) == Matches(before[i].g, m)
Here(v, m) == { i \in DOMAIN before : before[i].s = v /\ Has(m, i) }
First(S) == CHOOSE i \in S : \A j \in S : i <= j
\* an annotation marked with t that has the label and the place of annotation i of the document before
MarkOf(i, t) == \E j \in DOMAIN E : /\ t \in E[j].g /\ E[j].s = before[i].s /\ E[j].t = before[i].t
                                    /\ E[j].c = before[i].c /\ E[j].a = before[i].a
KeepsAll == done => Keeps(before, E) /\ WellFormed(Text, 0, E) /\ Unique(E) /\ LinksExist(E)
SelectOK == (done /\ Kind = "select") =>
    \A v \in {0, 1, 2} :
        LET fb == Here(v, C.fb) good == { i \in Here(v, C.in) : Holds(before, i, C) }
        IN  fb # {} =>
             \* nothing is chosen there but readings whose conditions hold, or the fall-back reading
             /\ \A i \in Here(v, C.in) : (MarkOf(i, "selected") /\ ~ \E j \in DOMAIN before : j # i /\ before[j].c = before[i].c
                                              /\ before[j].s = before[i].s /\ before[j].t = before[i].t /\ before[j].a = before[i].a)
                                         => Holds(before, i, C)
             \* the fall-back reading is used when there is no regular one
             /\ good = {} => (MarkOf(First(fb), "selected") <=> (C.blank \/ before[First(fb)].c # "B"))
             \* a regular reading up to the end of the fall-back reading is always used, and instead of it
             /\ \A i \in good : (before[i].t = before[First(fb)].t /\ (C.blank \/ before[i].c # "B")) =>
                                   MarkOf(i, "selected")
AntiOK == (done /\ Kind = "anti") =>
    \A i \in DOMAIN before : Has(C.fb, i) =>
        LET regular == \E j \in DOMAIN before : before[j].s = before[i].s /\ before[j].t = before[i].t /\ Has(C.in, j)
        IN  MarkOf(i, "selected") <=> (~regular /\ (C.blank \/ before[i].c # "B"))
JoinOK == (done /\ Kind = "join" /\ C.r = "ok" /\ C.g = {"joined", "!y"}) =>
    LET lefts == { i \in DOMAIN before : Has(C.left, i) }
        par(i) == AllLinks(before[i])
        rights(i) == IF par(i) = <<>> THEN {}
                     ELSE { j \in DOMAIN before : Has(C.right, j) /\ before[j].s = before[par(i)[1]].s
                                                  /\ before[j].t = before[par(i)[1]].t /\ par(i)[1] \in Range(par(j)) }
        pairs == { <<i, j>> \in lefts \X DOMAIN before : j \in rights(i) }
        from(l) == { n \in DOMAIN E : "joined" \in E[n].g /\ \E k \in DOMAIN E[n].p : E[n].p[k].l = l }
        alones == { i \in lefts : C.ext \/ (C.outer /\ rights(i) = {}) }
    IN  /\ \A p \in pairs : Cardinality(from(<<p[1], p[2]>>)) = 1
        /\ \A i \in lefts : Cardinality(from(<<i>>)) = IF i \in alones THEN 1 ELSE 0
        /\ \A n \in DOMAIN E : "joined" \in E[n].g =>
              \A k \in DOMAIN E[n].p : \/ E[n].p[k].l \in { <<p[1], p[2]>> : p \in pairs }
                                       \/ E[n].p[k].l \in { <<i>> : i \in alones }
\* running once more: no further annotations, where the results do not enter the layers read
Again == (done /\ (Kind # "join" \/ C.g = {"joined", "!y"}) /\ (Kind = "select" => C.g = {"selected"})) =>
            LET x == Result(E, C) IN x.r = (IF Kind = "join" THEN C.r ELSE "ok") /\ SameLabels(E, x.E)
=============================================================================
