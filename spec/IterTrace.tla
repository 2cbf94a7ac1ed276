----------------------------- MODULE IterTrace -----------------------------
(* Validates documents written out by the real iterating writer, as events, as text and as JSON
   (drivers/iter_driver.cpp): the lines of LatticeTrace, plus one line per writing. *)
EXTENDS LatticeTrace, IterOps

Doc(es) == [i \in DOMAIN es |-> [s |-> es[i].s, t |-> es[i].t, c |-> es[i].c, x |-> es[i].x, a |-> es[i].a,
                                 g |-> Range(es[i].g), d |-> "discarded" \in Range(es[i].g)]]
WOrderOK(e) ==
    LET es == e.st.es IN
    /\ Cardinality(Range(e.order)) = Len(e.order)
    /\ \A i \in DOMAIN es : \E a, b \in DOMAIN e.order : a < b /\ e.order[a] = es[i].s /\ e.order[b] = es[i].t

IterStep ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ UNCHANGED <<E, ch, nl>>
    /\ Ev.op = "write" =>
        LET e == Ev
            want == Events(e.st.ch, Doc(e.st.es), e.order, e.fst, e)
        IN  /\ Check(e.r = "ok", "outcome", "ok", e.r)
            /\ l > 1 => Check(e.st = Trace[l-1].st, "writing changed the document", "", "")
            /\ Check(WOrderOK(e), "order of places", "", e.order)
            /\ Check(SameEvents(e.ev, want, e), "events", want, e.ev)
            /\ Check(Balanced(e.ev, e) /\ Blocks(e.ev), "nesting", "", e.ev)
            /\ Check(e.out = Text(e.ev, e), "text", Text(e.ev, e), e.out)
            /\ (Len(e.spec) <= 1) =>
                  /\ Check(e.valid, "valid JSON", "", e.tree)
                  /\ Check(e.tree = JsonTree(e.ev, e.args), "JSON", JsonTree(e.ev, e.args), e.tree)
ISpec == Init /\ [][IterStep]_vars
=============================================================================
