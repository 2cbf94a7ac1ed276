---------------------------- MODULE CompleteTrace ----------------------------
(* Validates traces of the real AutoCompleter, FactoriesKeeper and Aliaser
   (drivers/framework_driver.cpp).  *)
EXTENDS CompleteOps, AliasOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, reg, dest
vars == <<l, reg, dest>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

Record(p) == [ann |-> p.ann, req |-> [i \in DOMAIN p.req |-> Range(p.req[i])], prov |-> Range(p.prov), h |-> p.h,
              langs |-> p.langs, q |-> p.q, t |-> p.t, fails |-> p.fails]
Request(e) == [i \in DOMAIN e.request |-> { P(x.n, x.l, FALSE) : x \in Range(e.request[i]) }]

Completed(e) ==
    LET all == Completions(reg, e.langs, Request(e))
        ok == { s \in all : Runs(reg, s) }
    IN  IF all = {} THEN Check(e.res = "none", "result", "none", e.res)
        ELSE IF ok = {} THEN
            /\ Check(e.res = "error", "result", "error", e.res)
            /\ Check(e.what \in { "cannot create " \o FirstFailing(reg, s) : s \in Best(reg, all) }, "error",
                     { FirstFailing(reg, s) : s \in Best(reg, all) }, e.what)
        ELSE /\ Check(e.res = "ok", "result", { Plain(s) : s \in Best(reg, ok) }, e.res)
             /\ Check(e.seq \in { Plain(s) : s \in Best(reg, ok) }, "completion", { Plain(s) : s \in Best(reg, ok) }, e.seq)

\* registering a processor: its own aliases, and those based on the tags it provides but does not require
Requires(p) == UNION { Range(p.req[i]) : i \in DOMAIN p.req }
Took(d, p) ==
    LET RECURSIVE tags(_, _)
        tags(dd, i) == IF i > Len(p.prov) THEN dd
                       ELSE tags(IF p.ann /\ IsAlias(dd, BaseAlias(p.prov[i])) /\ p.prov[i] \notin Requires(p)
                                 THEN AddAlias(dd, BaseAlias(p.prov[i]), p.n) ELSE dd, i + 1)
        RECURSIVE own(_, _)
        own(dd, i) == IF i > Len(p.aliases) THEN dd ELSE own(AddAlias(dd, p.aliases[i], p.n), i + 1)
    IN  own(tags(d, 1), 1)

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "reset" -> reg' = << >> /\ dest' = NoAliases
         [] e.op = "take" -> /\ reg' = (e.p.n :> Record(e.p)) @@ reg
                             /\ dest' = Took(dest, e.p)
         [] e.op = "alias" -> dest' = AddAlias(dest, e.a, e.d) /\ UNCHANGED reg
         [] e.op = "void" -> dest' = AddVoid(dest, e.a) /\ UNCHANGED reg
         [] e.op = "tagalias" -> dest' = AddVoid(AddAlias(dest, e.a, BaseAlias(e.t)), BaseAlias(e.t)) /\ UNCHANGED reg
         [] e.op = "izealias" -> /\ UNCHANGED reg
                                 /\ dest' = AddVoid(FoldSeq(LAMBDA x, d : AddAlias(d, e.a \o x, BaseAlias(e.t)), dest, <<"ise", "ize", "iser", "izer">>), BaseAlias(e.t))
         [] e.op = "complete" -> Completed(e) /\ UNCHANGED <<reg, dest>>
         [] e.op = "lookup" ->
              /\ UNCHANGED <<reg, dest>>
              /\ Check(Len(e.dests) = Cardinality(Range(e.dests)) /\ Range(e.dests) = Destinations(dest, e.n), "destinations", Destinations(dest, e.n), e.dests)
              /\ Check(Len(e.aliases) = Cardinality(Range(e.aliases)) /\ Range(e.aliases) = AliasesOf(dest, e.n), "aliases of", AliasesOf(dest, e.n), e.aliases)
              /\ Check(e.isalias = IsAlias(dest, e.n), "is alias", IsAlias(dest, e.n), e.isalias)
              /\ Check(Range(e.names) = DOMAIN dest /\ Len(e.names) = Cardinality(DOMAIN dest), "alias names", DOMAIN dest, e.names)
         [] e.op = "factories" ->
              /\ UNCHANGED <<reg, dest>>
              /\ LET known == IF e.n \in DOMAIN reg THEN {e.n} ELSE Destinations(dest, e.n)
                     ok == (e.n \in DOMAIN reg) \/ (IsAlias(dest, e.n) /\ known \subseteq DOMAIN reg)
                 IN  /\ Check(e.ok = ok, "known processor", ok, e.ok)
                     /\ Check(ok => Len(e.got) = Cardinality(known) /\ Range(e.got) = known, "processors for name", known, e.got)
                     /\ Check(Range(e.procs) = DOMAIN reg /\ Len(e.procs) = Cardinality(DOMAIN reg), "processor names", DOMAIN reg, e.procs)
                     /\ Check(e.has = (e.n \in DOMAIN reg), "has processor", e.n \in DOMAIN reg, e.has)
Init == l = 1 /\ reg = << >> /\ dest = NoAliases
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
