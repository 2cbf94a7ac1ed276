----------------------------- MODULE LemTrace -----------------------------
(* Validates runs of the dictionary lemmatizer on real documents (drivers/lem_driver.cpp): the lines of LatticeTrace,
   plus one line per run.  The document after a run must be exactly the one LemOps computes. *)
EXTENDS LatticeTrace, LemOps

Cfg(e) == [d |-> ReadDict(e.lines).d, level |-> e.level, ids |-> e.ids, rank |-> RankOf(e.ord), low |-> Range(e.low)]
\* annotations visited: each of the layer once, sorted by their ends
OrderOK(e, prev, o) ==
    /\ Cardinality(Range(o)) = Len(o)
    /\ \A k \in DOMAIN o : Matches(E[o[k]].g, e.in)
    /\ \A i \in DOMAIN E : (E[i].s >= 0 /\ E[i].t >= 0 /\ Matches(E[i].g, e.in)) => i \in Range(o)
    /\ \A j, k \in DOMAIN o : (j < k /\ E[o[j]].t >= 0 /\ E[o[k]].t >= 0) => E[o[j]].t <= E[o[k]].t
LemStep ==
    /\ l <= Len(Trace)
    /\ IF Ev.op = "lemmatize"
       THEN LET e == Ev
                prev == Trace[l - 1].st.es
                good == ReadDict(e.lines).ok
                o == [k \in DOMAIN e.order |-> ToSpec(E, prev, e.order[k])]
                once == IF good THEN Lemmatize(ch, E, o, Cfg(e)) ELSE E
                EE == IF good /\ e.twice THEN Lemmatize(ch, once, o, Cfg(e)) ELSE once
                labels(P) == { [k |-> P[i].k, g |-> P[i].g, w |-> P[i].w] : i \in DOMAIN P }
            IN  /\ l' = l + 1
                /\ Check(OrderOK(e, prev, o), "annotations visited", "", e.order)
                /\ Check(e.r = (IF good THEN "ok" ELSE "other"), "outcome", good, e.r)
                /\ Check(Len(e.st.es) = Len(EE) /\ labels(SpecProj(EE)) = labels(ObsProj(e.st.es)), "annotations",
                         labels(SpecProj(EE)) \ labels(ObsProj(e.st.es)), labels(ObsProj(e.st.es)) \ labels(SpecProj(EE)))
                /\ Check(SameDoc(EE, ch, nl, e.st), "document", Range(SpecProj(EE)) \ Range(ObsProj(e.st.es)),
                         Range(ObsProj(e.st.es)) \ Range(SpecProj(EE)))
                /\ E' = EE
                /\ UNCHANGED <<ch, nl>>
       ELSE l' = l + 1 /\ StateStep
LSpec == Init /\ [][LemStep]_vars
=============================================================================
