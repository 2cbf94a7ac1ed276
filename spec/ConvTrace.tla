----------------------------- MODULE ConvTrace -----------------------------
(* Validates traces of the selector, the anti-selector and the joiner running on real documents
   (drivers/conv_driver.cpp): the lines of LatticeTrace, plus one line per run of a processor.
   The document after a run must be exactly the one ConvOps computes; nothing recorded before may
   be removed or altered; running once more leaves the same annotations. *)
EXTENDS LatticeTrace, ConvOps

Cfg(e) ==
    CASE e.op = "selector" -> [fb |-> e.fb, in |-> e.in, test |-> e.test, g |-> Range(e.g), blank |-> e.blank, cd |-> e.cd]
      [] e.op = "antiselector" -> [fb |-> e.fb, in |-> e.in, g |-> Range(e.g), blank |-> e.blank]
      [] OTHER -> [left |-> e.left, right |-> e.right, g |-> Range(e.g), ltext |-> e.ltext, lcat |-> e.lcat,
                   attrs |-> e.attrs, outer |-> e.outer, ext |-> e.ext]
Run(e) ==
    CASE e.op = "selector" -> [r |-> "ok", E |-> Select(ch, E, e.order, Cfg(e))]
      [] e.op = "antiselector" -> [r |-> "ok", E |-> Anti(ch, E, e.order, Cfg(e))]
      [] OTHER -> Join(ch, E, e.order, Cfg(e))
OrderOK(e) ==
    /\ Cardinality(Range(e.order)) = Len(e.order)
    /\ \A i \in DOMAIN E : \E a, b \in DOMAIN e.order : a < b /\ e.order[a] = E[i].s /\ e.order[b] = E[i].t

\* derivations of plain marks are not part of the property: take over those observed
Resync(EE, es) ==
    [i \in DOMAIN EE |->
        LET q == CHOOSE k \in DOMAIN es : ObsKey(es[k]) = Key(EE[i])
        IN [EE[i] EXCEPT !.p = [j \in DOMAIN es[q].p |->
              [g |-> Range(es[q].p[j].g), w |-> es[q].p[j].w, r |-> es[q].p[j].r, h |-> es[q].p[j].h,
               l |-> [n \in DOMAIN es[q].p[j].l |->
                        CHOOSE m \in DOMAIN EE : Key(EE[m]) = ObsKey(es[es[q].p[j].l[n]])]]]]]
Linked(p) == SelectSeq(p, LAMBDA d : d.l # <<>>)
ConvStep ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ IF Ev.op \in {"selector", "antiselector", "joiner"}
       THEN LET e == Ev
                x == Run(e)
                labels(P) == { [k |-> P[i].k, g |-> P[i].g, w |-> P[i].w] : i \in DOMAIN P }
                derivs(P) == { [k |-> P[i].k, p |-> [n \in DOMAIN Linked(P[i].p) |-> Linked(P[i].p)[n].l]] : i \in DOMAIN P }
            IN  /\ Check(OrderOK(e), "order of places", "", e.order)
                /\ Check(e.r = x.r, "outcome", x.r, e.r)
                /\ Check(Len(e.st.es) = Len(x.E) /\ labels(SpecProj(x.E)) = labels(ObsProj(e.st.es)), "annotations",
                         labels(SpecProj(x.E)) \ labels(ObsProj(e.st.es)),
                         labels(ObsProj(e.st.es)) \ labels(SpecProj(x.E)))
                /\ Check(derivs(SpecProj(x.E)) = derivs(ObsProj(e.st.es)), "derivations",
                         derivs(SpecProj(x.E)) \ derivs(ObsProj(e.st.es)),
                         derivs(ObsProj(e.st.es)) \ derivs(SpecProj(x.E)))
                /\ Check(Ordered(x.E, e.st.es) /\ Reported(e.st) /\ e.st.ch = ch /\ e.st.nl = nl, "document", "", "")
                /\ (e.again /\ l > 1) => Check(SameLabels(E, x.E), "running again", "", "")
                /\ E' = Resync(x.E, e.st.es)
                /\ UNCHANGED <<ch, nl>>
       ELSE StateStep
CSpec == Init /\ [][ConvStep]_vars
=============================================================================
