----------------------------- MODULE MapTrace -----------------------------
(* Validates runs of the mapper and the bilingual lexicon on real documents (drivers/map_driver.cpp): the lines of
   LatticeTrace, plus one line per run.  The document after a run must be exactly the one MapOps computes. *)
EXTENDS LatticeTrace, MapOps

Cfg(e) ==
    [kind |-> e.op, in |-> e.in, g |-> Range(e.g), lex |-> ReadText(e.lines).lex]
    @@ (IF e.op = "bilexicon" THEN <<>>
        ELSE [ct |-> e.ct, cc |-> e.cc, ca |-> e.ca, lt |-> e.lt, lc |-> e.lc, la |-> e.la, st |-> e.sx, sc |-> e.sc,
              sa |-> e.sa, add |-> e.add, ult |-> e.ult, ulc |-> e.ulc, ula |-> e.ula, ust |-> e.ust, usc |-> e.usc,
              usa |-> e.usa])
\* annotations visited: each of the layer once, sorted by their ends
OrderOK(e, prev, o) ==
    /\ Cardinality(Range(o)) = Len(o)
    /\ \A k \in DOMAIN o : Matches(E[o[k]].g, e.in)
    /\ \A i \in DOMAIN E : (E[i].s >= 0 /\ E[i].t >= 0 /\ Matches(E[i].g, e.in)) => i \in Range(o)
    /\ \A j, k \in DOMAIN o : (j < k /\ E[o[j]].t >= 0 /\ E[o[k]].t >= 0) => E[o[j]].t <= E[o[k]].t
MapStep ==
    /\ l <= Len(Trace)
    /\ IF Ev.op \in {"mapper", "bilexicon"}
       THEN LET e == Ev
                prev == Trace[l - 1].st.es
                good == ReadText(e.lines).ok
                o == [k \in DOMAIN e.order |-> ToSpec(E, prev, e.order[k])]
                EE == IF good THEN MapAll(ch, E, o, Cfg(e)) ELSE E
                labels(P) == { [k |-> P[i].k, g |-> P[i].g, w |-> P[i].w] : i \in DOMAIN P }
            IN  /\ l' = l + 1
                /\ Check(OrderOK(e, prev, o), "annotations visited", "", e.order)
                /\ Check(e.r = (IF good THEN "ok" ELSE "other"), "outcome", good, e.r)
                /\ Check(Len(e.st.es) = Len(EE) /\ labels(SpecProj(EE)) = labels(ObsProj(e.st.es)), "annotations",
                         labels(SpecProj(EE)) \ labels(ObsProj(e.st.es)), labels(ObsProj(e.st.es)) \ labels(SpecProj(EE)))
                /\ Check(SameDoc(EE, ch, nl, e.st), "document", Range(SpecProj(EE)) \ Range(ObsProj(e.st.es)),
                         Range(ObsProj(e.st.es)) \ Range(SpecProj(EE)))
                /\ E' = EE
                /\ UNCHANGED <<ch, nl>>
       ELSE l' = l + 1 /\ StateStep
MSpec == Init /\ [][MapStep]_vars
=============================================================================
