---------------------------- MODULE CompleteModel ----------------------------
(* Every small registry and request: completion as a nondeterministic search.  With Circles = TRUE
   (nothing stops a processor from being added for the sake of itself) the sequence grows without
   bound on some registries: the negative control. *)
EXTENDS CompleteOps, Json
CONSTANTS Names, Tags, Handlings, Langs, Requests, Circles, Emit
VARIABLES reg, request, seq, k
vars == <<reg, request, seq, k>>
L0 == <<>>
L2 == <<"pl", "en">>
L3 == <<"en", "pl", "de">>
R1 == { <<{"A"}>>, <<{"A"}, {"B"}>>, <<{"A", "B"}>>, <<{"A", "B"}, {"C"}>> }
R2 == { <<{"A"}>>, <<{"A"}, {"B"}>>, <<{"A", "B"}>>, <<{"A"}, {"A", "B"}>> }
R3 == R1 \cup { <<{"A"}, {"A"}>>, <<{"A"}, {"B"}, {"C"}>>, <<{"A", "B", "C"}>>, <<{"A", "B"}, {"A", "C"}>> }
Reqs == { <<>> } \cup { <<r>> : r \in (SUBSET Tags) \ {{}} }
Records == { [ann |-> TRUE, req |-> r, prov |-> p, h |-> h, langs |-> IF h = "one" THEN <<Langs[1]>> ELSE IF h = "dep" THEN Langs ELSE <<>>,
              q |-> 0, t |-> 0, fails |-> ""] : r \in Reqs, p \in SUBSET Tags, h \in Handlings }
ToSeqOfSets(r) == [i \in DOMAIN r |-> { P(n, "", FALSE) : n \in r[i] }]
Init == /\ reg \in [Names -> Records]
        /\ \E r \in Requests : request = ToSeqOfSets(r)
        /\ seq = request /\ k = 1
Next == /\ k <= Len(seq)
        /\ \E x \in StepFrom(reg, Langs, Circles, seq, k) : seq' = x[1] /\ k' = x[2]
        /\ UNCHANGED <<reg, request>>
Spec == Init /\ [][Next]_vars
Done == k > Len(seq)
Result == [i \in DOMAIN seq |-> The(seq[i])]
\* a request is at most multiplied by the languages, and every processor is added once per open chain
Bounded == Len(seq) <= (IF Langs = <<>> THEN 1 ELSE Len(Langs)) * Len(request) * (1 + Cardinality(Names))
Sound == Done => Met(reg, Result) /\ Needed(reg, Result)
                 /\ ((\A n \in Names : reg[n].h = "indep") => Kept(Result, request))
\* nothing is missed: a completion is found exactly when there is one (registries without languages)
Complete == (seq = request /\ k = 1 /\ \A n \in Names : reg[n].h = "indep")
            => (Completions(reg, Langs, request) # {}) = Completable(reg, request, {})
OneOf == Done => Result \in Completions(reg, Langs, request)
Printed == (Emit /\ seq = request /\ k = 1) => PrintT("SCRIPT " \o ToJson(
    [reg |-> [n \in Names |-> reg[n]], request |-> request, langs |-> Langs]))
=============================================================================
