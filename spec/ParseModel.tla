---------------------------- MODULE ParseModel ----------------------------
(* The chart parser as a machine: an agenda of items, taken in any order; an item taken is combined with the items taken
   before it (its neighbours on both sides), what results and is new is put on the agenda.  Whatever the order, the chart
   ends up as the closure of the given items under the rules. *)
EXTENDS ParseOps, TLC, Json
CONSTANTS Cats, MaxRules, MaxLeaves, Layouts, SkipOnce, Emit
VARIABLES rules, blanks, leaves, lay, chart, agenda, marked, done
vars == <<rules, blanks, leaves, lay, chart, agenda, marked, done>>

\* texts: the places of words and of blanks
Words(x) == CASE x = "two" -> <<<<0, 1>>, <<1, 2>>>> [] x = "three" -> <<<<0, 1>>, <<1, 2>>, <<2, 3>>>>
              [] x = "gap" -> <<<<0, 1>>, <<2, 3>>>> [] x = "wide" -> <<<<0, 1>>, <<3, 4>>>>
              [] x = "mixed" -> <<<<0, 1>>, <<3, 4>>, <<4, 5>>>>
Gaps(x) == CASE x = "two" -> {} [] x = "three" -> {} [] x = "gap" -> {<<1, 2>>} [] x = "wide" -> {<<1, 2>>, <<2, 3>>}
             [] x = "mixed" -> {<<1, 2>>, <<2, 3>>}
Sym(c, id) == [k |-> "s", c |-> c, op |-> FALSE, id |-> id]
Rule(l, r) == [l |-> l, e |-> [i \in DOMAIN r |-> Sym(r[i], i)], w |-> 0, star |-> 0, cond |-> [k |-> "none"]]
Plain == {<<l, r>> : l \in Cats, r \in ({<<x>> : x \in Cats} \cup {<<x, y>> : x \in Cats, y \in Cats})}
Leaf(p, c) == [s |-> p[1], t |-> p[2], c |-> c, a |-> {}]

Init ==
    /\ lay \in Layouts
    /\ blanks = Gaps(lay)
    /\ \E R \in SUBSET Plain : Cardinality(R) <= MaxRules /\ R # {} /\ rules = [i \in 1..Cardinality(R) |-> Rule(SetToSeq(R)[i][1], SetToSeq(R)[i][2])]
    /\ \E f \in [DOMAIN Words(lay) -> Cats] :
         leaves = {Leaf(Words(lay)[i], f[i]) : i \in DOMAIN Words(lay)}
    /\ Cardinality(leaves) <= MaxLeaves
    /\ chart = leaves /\ agenda = leaves /\ marked = {} /\ done = FALSE

\* the neighbours found from an item: from its end over the blanks that follow, from its beginning over those before
RECURSIVE Before(_)
Before(v) == IF \E b \in blanks : b[2] = v THEN Before((CHOOSE b \in blanks : b[2] = v)[1]) ELSE v
AfterOf(v) == IF SkipOnce THEN (IF \E b \in blanks : b[1] = v THEN (CHOOSE b \in blanks : b[1] = v)[2] ELSE v) ELSE After(blanks, v)
Pairs(e) == {<<e, f>> : f \in {m \in marked : m.s = AfterOf(e.t)}} \cup {<<f, e>> : f \in {m \in marked : m.t = Before(e.s)}}
Results(e) ==
    {[s |-> e.s, t |-> e.t, c |-> rules[i].l, a |-> {}] : i \in {i \in DOMAIN rules : Len(rules[i].e) = 1 /\ rules[i].e[1].c = e.c}} \cup
    UNION {{[s |-> p[1].s, t |-> p[2].t, c |-> rules[i].l, a |-> {}] :
              i \in {i \in DOMAIN rules : Len(rules[i].e) = 2 /\ rules[i].e[1].c = p[1].c /\ rules[i].e[2].c = p[2].c}} : p \in Pairs(e)}
Take(e) ==
    /\ ~done /\ e \in agenda
    /\ LET N == Results(e) \ chart IN
         /\ chart' = chart \cup N
         /\ agenda' = (agenda \ {e}) \cup N
    /\ marked' = marked \cup {e}
    /\ UNCHANGED <<rules, blanks, leaves, lay, done>>
Finish == ~done /\ agenda = {} /\ done' = TRUE /\ UNCHANGED <<rules, blanks, leaves, lay, chart, agenda, marked>>
Next == (\E e \in agenda : Take(e)) \/ Finish
Spec == Init /\ [][Next]_vars

Sound == chart \subseteq Closure(rules, leaves, blanks)
Complete == done => chart = Closure(rules, leaves, blanks)
Apart == agenda \cap marked = {} /\ agenda \cup marked = chart
Printed == (Emit /\ done) =>
    PrintT("SCRIPT " \o ToJson([lay |-> lay, leaves |-> SetToSeq(leaves), blanks |-> SetToSeq(blanks),
                                 rules |-> [i \in DOMAIN rules |-> [l |-> rules[i].l, r |-> [j \in DOMAIN rules[i].e |-> rules[i].e[j].c]]]]))
=============================================================================
