------------------------------ MODULE TagTrace ------------------------------
(* Validates traces of a real LayerTagManager (drivers/tag_driver.cpp): tag collections are sets of
   names, a condition is any, none, or a sequence of alternatives (sets of names).  After every call
   all collections and conditions made so far are compared: listing, inclusion, equality, planes,
   and which collection every condition matches. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          cs,     \* collections: sets of names
          ms,     \* conditions: [k |-> "any"/"alt", a |-> sequence of sets]
          planes  \* plane tags created so far
vars == <<l, cs, ms, planes>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

AnyMask == [k |-> "any", a |-> <<>>]
Alt(s) == [k |-> "alt", a |-> s]
Matches(g, m) == m.k = "any" \/ \E i \in DOMAIN m.a : m.a[i] \subseteq g
Symbolic(m) == m.k = "any" \/ \E i \in DOMAIN m.a : m.a[i] = {"symbol"}
IsNone(m) == m.k = "alt" /\ \A i \in DOMAIN m.a : m.a[i] = {}

\* names as given in the script; e.plane: those of them that name planes (start with '!')
Sets(alts) == [i \in DOMAIN alts |-> Range(alts[i])]
Made(e) ==
    CASE e.op = "coll" -> Range(e.names) \cup Range(e.langtag)
      [] e.op = "union" -> cs[e.a] \cup cs[e.b]
      [] e.op = "inter" -> cs[e.a] \cap cs[e.b]
      [] e.op = "onlyplane" -> cs[e.a] \cap planes
      [] e.op = "planetags" -> planes
Cond(e) ==
    CASE e.how = "any" -> AnyMask
      [] e.how = "none" -> Alt(<<>>)
      [] e.how = "coll" -> Alt(<<cs[e.a]>>)
      [] e.how = "alt2" -> Alt(<<cs[e.a], cs[e.b]>>)
      [] e.how = "alt3" -> Alt(<<cs[e.a], cs[e.b], cs[e.c]>>)
      [] e.how = "altv" -> Alt([i \in DOMAIN e.cs |-> cs[e.cs[i]]])
      [] OTHER -> Alt([i \in DOMAIN e.alts |-> Range(e.alts[i]) \cup Range(e.langtag)])
IsColl(e) == e.op \in {"coll", "union", "inter", "onlyplane", "planetags"}
CollOK(e) ==
    \A i \in DOMAIN cs' :
        /\ Check(Len(e.C[i].g) = Cardinality(cs'[i]) /\ Range(e.C[i].g) = cs'[i], <<"collection", i>>, cs'[i], e.C[i].g)
        /\ Check(e.C[i].empty = (cs'[i] = {}) /\ e.C[i].nonempty = (cs'[i] # {}), <<"emptiness", i>>, cs'[i], e.C[i])
        /\ \A j \in DOMAIN cs' :
            /\ Check(e.sub[i][j] = (cs'[i] \subseteq cs'[j]), <<"inclusion", i, j>>, <<cs'[i], cs'[j]>>, e.sub[i][j])
            /\ Check(e.eq[i][j] = (cs'[i] = cs'[j]) /\ e.ne[i][j] = (cs'[i] # cs'[j]), <<"equality", i, j>>, <<cs'[i], cs'[j]>>, e.eq[i][j])
            /\ Check(cs'[i] = cs'[j] => e.heq[i][j], <<"hash", i, j>>, TRUE, e.heq[i][j])
            /\ Check(e.same[i][j] = (cs'[i] \cap planes' = cs'[j] \cap planes'), <<"same plane", i, j>>, <<cs'[i], cs'[j]>>, e.same[i][j])
MaskOK(e) ==
    \A i \in DOMAIN ms' :
        LET m == ms'[i] o == e.ms[i] IN
        /\ Check(o.any = (m.k = "any"), <<"is any", i>>, m, o.any)
        /\ Check(o.sym = Symbolic(m), <<"applies to bare symbols", i>>, m, o.sym)
        /\ \A j \in DOMAIN cs' : Check(o.match[j] = Matches(cs'[j], m), <<"condition", i, "matches", j>>, <<m, cs'[j]>>, o.match[j])
        /\ \A j \in DOMAIN ms' :
             /\ Check(m = ms'[j] => e.meq[i][j], <<"equal conditions", i, j>>, m, FALSE)
             /\ Check(e.meq[i][j] => (m.k = ms'[j].k /\ Range(m.a) = Range(ms'[j].a)), <<"different conditions", i, j>>, <<m, ms'[j]>>, TRUE)
             /\ Check(e.meq[i][j] => e.mheq[i][j], <<"hash of equal conditions", i, j>>, TRUE, FALSE)
Query(e) ==
    CASE e.op = "isnone" -> Check(e.res = IsNone(ms[e.m]), "counts as none", ms[e.m], e.res)
      [] e.op = "issome" -> Check(e.res = ~IsNone(ms[e.m]), "counts as some", ms[e.m], e.res)
      [] e.op = "isthere" -> Check(e.res = (e.name \in cs[e.a]), "tag present", cs[e.a], e.res)
      [] e.op = "splitmask" -> Check(e.res = e.alts, "split condition", e.alts, e.res)
      [] e.op = "splitcoll" -> Check(e.res = e.names, "split collection", e.names, e.res)
      [] OTHER -> TRUE
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       /\ cs' = IF e.op = "reset" THEN <<>> ELSE IF IsColl(e) THEN Append(cs, Made(e)) ELSE cs
       /\ ms' = IF e.op = "reset" THEN <<>> ELSE IF e.op = "mask" THEN Append(ms, Cond(e)) ELSE ms
       /\ planes' = IF e.op = "reset" THEN {} ELSE planes \cup Range(e.plane)
       /\ Check(Len(e.C) = Len(cs') /\ Len(e.ms) = Len(ms'), "numbers", <<Len(cs'), Len(ms')>>, <<Len(e.C), Len(e.ms)>>)
       /\ CollOK(e) /\ MaskOK(e) /\ Query(e)
Init == l = 1 /\ cs = <<>> /\ ms = <<>> /\ planes = {}
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
