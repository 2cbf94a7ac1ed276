----------------------------- MODULE MapModel -----------------------------
(* Small documents built annotation by annotation, then one run of the mapper or of the bilingual lexicon.  Checked: what
   the property says about the result, independently of how MapOps computes it.  With Emit every history is printed as
   a driver script. *)
EXTENDS MapOps, Json
CONSTANTS MaxEdges, Emit

Text == << <<"a", 1>>, <<"b", 1>> >>
Lines == << "u u X k=v", "u n", "u w Y", "w n+Z m", "X u", "X,k=v u X" >>
Lex == ReadText(Lines).lex
R(sp, c, x, a, g, q) == [s |-> sp[1], t |-> sp[2], c |-> c, x |-> x, a |-> a, g |-> g, q |-> q, w |-> 0, rule |-> -1, h |-> -1]
VARIABLES E, hist, done, before, cfg
vars == <<E, hist, done, before, cfg>>
AnyTag == [k |-> "any", a |-> <<>>]
Listing == FoldLeft(LAMBDA acc, v : acc \o Out(E, v, AnyTag), <<>>, <<0, 1, 2>>)
PosOf(i) == (CHOOSE k \in DOMAIN Listing : Listing[k] = i) - 1
Requests ==
    { R(sp, "X", x, a, g, q) : sp \in { <<0, 1>>, <<0, 2>> }, x \in {"u", "w", "n"}, a \in { <<>>, << <<"k", "v">> >> },
                               g \in { {"form"}, {"lexeme", "!x"}, {"form", "!y"} }, q \in { <<>> } \cup { << i >> : i \in DOMAIN E } }
Mask(ts) == [k |-> "alt", a |-> << ts >>]
Base == [kind |-> "mapper", in |-> Mask(<<"form">>), g |-> {"mapped"}, lex |-> Lex, ct |-> TRUE, cc |-> FALSE, ca |-> FALSE,
         lt |-> FALSE, lc |-> FALSE, la |-> FALSE, st |-> <<>>, sc |-> <<>>, sa |-> <<>>, add |-> FALSE,
         ult |-> FALSE, ulc |-> FALSE, ula |-> FALSE, ust |-> <<>>, usc |-> <<>>, usa |-> <<>>]
Configs == { [Base EXCEPT !.add = x, !.la = ~x] : x \in BOOLEAN }
           \cup { [Base EXCEPT !.lc = TRUE, !.g = {"mapped", "!y"}], [Base EXCEPT !.ult = TRUE, !.ulc = TRUE, !.ula = TRUE],
                  [Base EXCEPT !.ct = FALSE, !.cc = TRUE, !.ca = TRUE, !.lt = TRUE, !.lc = TRUE, !.la = TRUE],
                  [Base EXCEPT !.kind = "bilexicon", !.in = Mask(<<"!x", "lexeme">>), !.g = {"lexeme", "bilexicon", "!translation", "!y"}] }
Opt(b, s) == IF b THEN <<s>> ELSE <<>>
Script(c) ==
    [op |-> c.kind, in |-> c.in, g |-> SetToSeq(c.g), lines |-> Lines, bin |-> FALSE]
    @@ (IF c.kind = "bilexicon" THEN [args |-> <<"--lang", "x", "--trg-lang", "y">>]
        ELSE [ct |-> c.ct, cc |-> c.cc, ca |-> c.ca, lt |-> c.lt, lc |-> c.lc, la |-> c.la, sx |-> c.st, sc |-> c.sc, sa |-> c.sa,
              add |-> c.add, ult |-> c.ult, ulc |-> c.ulc, ula |-> c.ula, ust |-> c.ust, usc |-> c.usc, usa |-> c.usa,
              args |-> <<"--lang", "x", "--in-tags", "form", "--out-tags", IF "!y" \in c.g THEN "mapped,!y" ELSE "mapped">>
                  \o Opt(c.ct, "--consider-text") \o Opt(c.cc, "--consider-category") \o Opt(c.ca, "--consider-attributes")
                  \o Opt(c.lt, "--clone-text") \o Opt(c.lc, "--clone-category") \o Opt(c.la, "--clone-attributes")
                  \o Opt(c.add, "--add-attributes") \o Opt(c.ult, "--unknown-clone-text")
                  \o Opt(c.ulc, "--unknown-clone-category") \o Opt(c.ula, "--unknown-clone-attributes")])
Build == /\ ~done /\ Len(E) < MaxEdges
         /\ \E r \in Requests :
              LET x == Add(Text, E, r)
              IN  /\ x.r = "ok" /\ Len(x.E) > Len(E)
                  /\ E' = x.E
                  /\ hist' = Append(hist, [op |-> "add", s |-> r.s, t |-> r.t, c |-> r.c, x |-> r.x, a |-> r.a, g |-> SetToSeq(r.g),
                                           seq |-> [k \in DOMAIN r.q |-> PosOf(r.q[k])], w |-> 0, rule |-> -1, h |-> -1])
         /\ UNCHANGED <<done, before, cfg>>
\* the layer, in the order of ends
OrderOf(EE, m) == FoldLeft(LAMBDA acc, v : acc \o In(EE, v, m), <<>>, <<0, 1, 2>>)
RunIt == /\ ~done /\ E # <<>>
         /\ \E c \in Configs : /\ E' = MapAll(Text, E, OrderOf(E, c.in), c) /\ cfg' = << c >> /\ hist' = Append(hist, Script(c))
         /\ before' = E /\ done' = TRUE
Init == E = <<>> /\ hist = << [op |-> "reset", text |-> "ab", sym |-> FALSE] >> /\ done = FALSE /\ before = <<>> /\ cfg = <<>>
Next == Build \/ RunIt
Spec == Init /\ [][Next]_vars
View == <<E, done, before, cfg>>
Printed == (Emit /\ done) => PrintT("SCRIPT " \o ToJson(hist))

C == cfg[1]
KeepsAll == done => Keeps(before, E) /\ WellFormed(Text, 0, E) /\ Unique(E) /\ LinksExist(E)
Layer == { i \in DOMAIN before : Matches(before[i].g, C.in) }
\* each record of each annotation of the layer: an annotation with the tags in its place, made from it or being itself
Every == done => \A i \in Layer : \A k \in DOMAIN Made(before[i], C) :
    LET m == Made(before[i], C)[k]
    IN  \E j \in DOMAIN E : /\ E[j].s = before[i].s /\ E[j].t = before[i].t /\ C.g \subseteq E[j].g
                            /\ E[j].x = m.x /\ E[j].c = m.c /\ E[j].a = m.a
                            /\ j = i \/ \E d \in DOMAIN E[j].p : E[j].p[d].l = << i >>
\* nothing else is new
Only == done => \A j \in DOMAIN E : j \in DOMAIN before \/
    \A d \in DOMAIN E[j].p : \E i \in Layer : E[j].p[d].l = << i >> /\ \E k \in DOMAIN Made(before[i], C) : Made(before[i], C)[k].x = E[j].x
\* what cannot be found adds nothing, unless asked to
Unfound == done /\ C.kind = "bilexicon" => \A j \in DOMAIN E : "bilexicon" \in E[j].g => \E i \in Layer : before[i].x \in DOMAIN Lex
\* running again: the same annotations
Again == done => SameLabels(E, MapAll(Text, E, OrderOf(E, C.in), C))
=============================================================================
