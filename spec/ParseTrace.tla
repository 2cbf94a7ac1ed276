---------------------------- MODULE ParseTrace ----------------------------
(* Validates runs of the real chart parser (drivers/chart_driver.cpp) on given edges and rules against ParseOps. *)
EXTENDS ParseOps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
vars == <<l>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

\* ==== an annotation as the parser sees it
Has(seq, x) == \E i \in DOMAIN seq : seq[i] = x
Quoted(g) == \E x \in {"normalization", "term", "token"} : Has(g, x)
Input(g, gob) == \E x \in {"normalization", "term", "token", "form", "gobio", "parse-aux"} \cup (IF gob THEN {"parse-terminal"} ELSE {}) : Has(g, x)
First == [V |-> "v", NP |-> "nP", Adj |-> "adj"]
FirstUp == [n |-> "N", gen |-> "Gen"]
Cat(c) == IF c \in DOMAIN First THEN First[c] ELSE c
Key(k) == IF k \in DOMAIN FirstUp THEN FirstUp[k] ELSE k
\* names beginning with "!" are the parser's own notes, kept while a long rule is handled in steps
Attrs(a) == {<<Key(a[i][1]), a[i][2]>> : i \in {j \in DOMAIN a : SubSeq(a[j][1], 1, 1) # "!"}}
Seen(x, gob) ==
    [s |-> x.s, t |-> x.t, c |-> IF Quoted(x.g) THEN "'" \o x.x \o "'" ELSE IF gob THEN Cat(x.c) ELSE x.c,
     a |-> IF gob THEN Attrs(x.a) ELSE {}]
IsBlank(x) == Has(x.g, "token") /\ x.c = "B"
Blanks(e) == {<<e.leaves[i].s, e.leaves[i].t>> : i \in {j \in DOMAIN e.leaves : IsBlank(e.leaves[j])}}
Given(e, gob) == {Seen(e.leaves[i], gob) : i \in {j \in DOMAIN e.leaves : Input(e.leaves[j].g, gob)}}
\* word symbols: a given item whose text is mentioned in the rules as '@text' is also an item of that category
Words(e) ==
    {[s |-> x.s, t |-> x.t, c |-> "'@" \o x.x \o "'", a |-> Attrs(x.a)] :
       x \in {e.leaves[i] : i \in {j \in DOMAIN e.leaves : (Has(e.leaves[j].g, "parse-terminal") \/ Has(e.leaves[j].g, "gobio")) /\ Has(e.at, e.leaves[j].x)}}}

\* ==== what the lattice holds afterwards
Aux(c) == Len(c) > 0 /\ SubSeq(c, 1, 1) = "<"
RuleTags == {"gobio", "parse-aux"}
Parts(x) == {i \in DOMAIN x.p : RuleTags \subseteq ToSet(x.p[i].g) /\ x.p[i].r >= 0}
Made(es) == {i \in DOMAIN es : Parts(es[i]) # {}}
OnlyTree(x) == \A i \in DOMAIN x.p : Has(x.p[i].g, "parse")

\* a step's constituents written out: sequences of (places of) edges
RECURSIVE Out(_, _)
Out(es, ks) ==
    IF ks = <<>> THEN {<<>>}
    ELSE LET h == es[ks[1]]
             H == IF Aux(h.c) THEN UNION {Out(es, h.p[i].l) : i \in Parts(h)} ELSE {<<ks[1]>>}
         IN  {x \o y : x \in H, y \in Out(es, Tail(ks))}
Items(es, ks, gob) == [i \in DOMAIN ks |-> Seen(es[ks[i]], gob)]
Scores(x) == {x.p[i].w : i \in DOMAIN x.p}
Sums(es, ks) ==
    IF ks = <<>> THEN {0}
    ELSE IF Len(ks) = 1 THEN Scores(es[ks[1]])
    ELSE {a + b : a \in Scores(es[ks[1]]), b \in Scores(es[ks[2]])}
RulesOf(e) ==
    IF e.op = "gobio" THEN e.G
    ELSE [i \in DOMAIN e.rules |-> [l |-> e.rules[i].l, w |-> e.rules[i].w, star |-> 0, cond |-> [k |-> "none"],
            e |-> [j \in DOMAIN e.rules[i].r |-> [k |-> "s", c |-> e.rules[i].r[j], op |-> FALSE, id |-> j]]]]

Chart(e) ==
    LET gob == e.op = "gobio"
        rules == RulesOf(e)
        blanks == Blanks(e)
        I0 == Given(e, gob) \cup Words(e)
        C == Closure(rules, I0, blanks)
        U == Good(Uses(rules, C, blanks))
        D == {u.o.item : u \in U}
        es == e.es
        M == Made(es)
        Real == {i \in M : ~Aux(es[i].c)}
        Got == {Seen(es[i], gob) : i \in Real}
        At == {Seen(es[i], gob) : i \in {j \in DOMAIN es : Len(es[j].c) > 1 /\ SubSeq(es[j].c, 1, 2) = "'@" /\ Has(es[j].g, "gobio") /\ Has(es[j].g, "parse-terminal")}}
        Single(u) == Len(u.kids) = 1 /\ u.kids[1] = u.o.item
    IN  /\ Check(At = Words(e), "word symbols", Words(e), At)
        /\ Check(\A x \in I0 : \E i \in DOMAIN es : Seen(es[i], gob) = x, "the given edges", I0, es)
        /\ Check(Got \subseteq D, "only what follows from the rules", "", Got \ D)
        /\ e.limit < 0 => Check(D \ Got \subseteq {u.o.item : u \in {v \in U : Single(v)}}, "all that follows from the rules", D \ Got, Got)
        \* each way recorded is an application of a rule
        /\ \A i \in Real : \A p \in Parts(es[i]) : \A ks \in Out(es, es[i].p[p].l) :
             LET fits == {u \in U : u.o.item = Seen(es[i], gob) /\ u.kids = Items(es, ks, gob)}
             IN  Check(fits # {}, "an application of a rule", Items(es, ks, gob), es[i])
        /\ \A i \in M : \A p \in Parts(es[i]) :
             LET x == es[i].p[p]
                 fits == {u \in U : u.o.item = Seen(es[i], gob) /\ \E ks \in Out(es, x.l) : u.kids = Items(es, ks, gob)}
                 base == IF Aux(es[i].c) THEN {0} ELSE {u.o.w * 1000 : u \in fits}
             IN  Check(\E a \in base : \E b \in Sums(es, x.l) : x.w = a + b, "score", <<base, Sums(es, x.l)>>, x)
        \* each application is recorded
        /\ e.limit < 0 =>
             LET Rec == {<<Seen(es[i], gob), Items(es, ks, gob)>> : <<i, ks>> \in UNION {UNION {{<<i, ks>> : ks \in Out(es, es[i].p[p].l)} : p \in Parts(es[i])} : i \in Real}}
                 Want == {<<u.o.item, u.kids>> : u \in {v \in U : ~Single(v)}}
             IN  Check(Want \subseteq Rec, "each application of a rule is recorded", Want \ Rec, "")
        /\ e.limit >= 0 =>
             LET Between(x) == {i \in DOMAIN es : es[i].s = x.s /\ es[i].t = x.t /\ ~OnlyTree(es[i])}
             IN  \A i \in M : LET B == Between(es[i]) IN
                   Check(Cardinality(B) <= e.limit + 1, "edges between two points", e.limit + 1, B)

\* ==== choosing: from the beginning, the longest finished constituent each time (or, with none, the shortest edge)
Final(x) == Has(x.g, "gobio") /\ ~Aux(x.c)
Outs(es, v, gob) == {i \in DOMAIN es : es[i].s = v /\ Input(es[i].g, gob) /\ ~OnlyTree(es[i])}
RECURSIVE Tiles(_, _)
Tiles(es, v) ==
    LET O == Outs(es, v, TRUE)
        F == {i \in O : Final(es[i])}
        far == IF F # {} THEN Max({es[i].t : i \in F}) ELSE Min({es[i].t : i \in O})
    IN  IF O = {} THEN <<>> ELSE <<[s |-> v, t |-> far, f |-> F # {}]>> \o Tiles(es, far)
Tree(e) ==
    LET es == e.es
        T == ToSet(Tiles(es, 0))
        P == {i \in DOMAIN es : Has(es[i].g, "parse")}
    IN  /\ \A x \in T : Check(\E i \in P : es[i].s = x.s /\ es[i].t = x.t, "a tree for each chosen part", T, {es[i] : i \in P})
        /\ \A i \in P : Check(\E x \in T : x.s <= es[i].s /\ es[i].t <= x.t, "trees within the chosen parts", T, es[i])

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "cfg" -> Check(e.r = "ok", "outcome", "ok", e.r) /\ Chart(e)
         [] e.op = "gobio" -> Check(e.r = "ok", "outcome", "ok", e.r) /\ Chart(e) /\ Tree(e)
         [] e.op = "lim" ->
              \A i \in DOMAIN e.q :
                LET q == e.q[i]
                    w == AllowedBy(SubSeq(e.specs, 1, q.after), e.abs, q.n, q.v)
                IN  Check(e.r[i] = w, "allowed", w, q)
Init == l = 1
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
