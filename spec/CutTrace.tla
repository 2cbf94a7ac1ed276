----------------------------- MODULE CutTrace -----------------------------
(* Validates runs of the real tokenizer and segmenter (drivers/cut_driver.cpp): every rule file loaded, every text cut
   and every document annotated is compared with what CutOps says. *)
EXTENDS CutOps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cfg
vars == <<l, cfg>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

RECURSIVE Str(_)
Str(t) == IF Len(t) = 0 THEN "" ELSE t[1] \o Str(Tail(t))
Shown(ps, t) == [i \in DOMAIN ps |-> [c |-> ps[i].c, x |-> Str(SubSeq(t, ps[i].b + 1, ps[i].e))]]
Alone(ps) == SelectSeq(ps, LAMBDA p : p.c # "!")
Settings(e) ==
    IF e.kind = "tok"
    THEN LET a == LoadRules(e.files, e.els) IN [kind |-> "tok", bad |-> a.bad, rules |-> a.rules]
    ELSE [kind |-> "srx", bad |-> FALSE, rules |-> SrxRules(e.maps, e.groups, e.lang, e.cascade \/ e.force)]
PiecesOf(t) == Pieces(cfg.kind, cfg.rules, t, cfg.hard, cfg.soft)
Exact(t) == cfg.kind = "tok" \/ Decided(cfg.rules, t)
Language == IF cfg.kind = "tok" THEN "token" ELSE "segment"

\* documents: every text annotation of the language is cut, on its own, into annotations over its symbols
\* a text put in at a point (ins = <<point, characters>>): the symbols it consists of, and the one that follows it, read "@"
TextOf(e) == IF e.ins = <<>> THEN e.t
             ELSE SubSeq(e.t, 1, e.ins[1]) \o [i \in 1..(e.ins[2] + 1) |-> "@"] \o SubSeq(e.t, e.ins[1] + 2, Len(e.t))
Moved(e, p) == IF e.ins # <<>> /\ p > e.ins[1] THEN p + e.ins[2] ELSE p
Spans(e) == {i \in DOMAIN e.te : e.te[i].g = cfg.lang}
Part(e, i) == SubSeq(TextOf(e), Moved(e, e.te[i].s) + 1, Moved(e, e.te[i].t))
EdgesOf(e, i) ==
    LET ps == PiecesOf(Part(e, i))
    IN  {[s |-> Moved(e, e.te[i].s) + ps[k].b, t |-> Moved(e, e.te[i].s) + ps[k].e, c |-> ps[k].c,
          x |-> Str(SubSeq(Part(e, i), ps[k].b + 1, ps[k].e))] : k \in DOMAIN ps}
Seen(e) == {[s |-> e.es[i].s, t |-> e.es[i].t, c |-> e.es[i].c, x |-> e.es[i].x] : i \in DOMAIN e.es}
SpanFails(e) == \E i \in Spans(e) : Fails(PiecesOf(Part(e, i)))

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "reset" ->
              LET s == Settings(e) IN
              /\ cfg' = s @@ [hard |-> e.hard, soft |-> e.soft, lang |-> e.lang]
              /\ Check(e.r = (IF s.bad THEN "error" ELSE "ok"), "outcome of loading", s.bad, e.r)
              /\ (e.kind = "tok" /\ ~ s.bad) =>
                    Check(e.rc = [i \in DOMAIN s.rules |-> s.rules[i].c], "rules loaded", s.rules, e.rc)
         [] e.op = "cut" ->
              LET ps == IF cfg.bad THEN <<>> ELSE PiecesOf(e.t) IN
              /\ UNCHANGED cfg
              /\ Check(e.r = (IF cfg.bad THEN "none" ELSE IF Fails(ps) THEN "error" ELSE "ok"), "outcome", ps, e.r)
              /\ (~cfg.bad /\ ~Fails(ps)) => Check(e.ps = Shown(ps, e.t), "pieces", Shown(ps, e.t), e.ps)
         [] e.op = "lat" ->
              LET S == Spans(e) IN
              /\ UNCHANGED cfg
              /\ Check(e.old, "other annotations, or a second run", "unchanged", "changed")
              /\ Check(\A i \in DOMAIN e.es : e.es[i].ok, "the pieces consist of symbols", "", e.es)
              /\ Check(\A i \in DOMAIN e.es : ToSet(e.es[i].g) = {"!" \o cfg.lang, Language}, "tags", "", e.es)
              /\ Check(Cardinality(Seen(e)) = Len(e.es), "each annotation once", "", e.es)
              /\ IF cfg.bad THEN Check(e.r = "none", "outcome", "none", e.r)
                 ELSE IF \A i \in S : Exact(Part(e, i))
                 THEN /\ Check(e.r = (IF SpanFails(e) THEN "error" ELSE "ok"), "outcome", "", e.r)
                      /\ ~SpanFails(e) =>
                         LET want == UNION {EdgesOf(e, i) : i \in S}
                         IN  Check(Seen(e) = want, "annotations", want, Seen(e))
                 ELSE (e.r = "ok" /\ Cardinality(S) = 1) =>
                      \A i \in S :
                         LET ps == [k \in DOMAIN e.es |-> [c |-> e.es[k].c, b |-> e.es[k].s - Moved(e, e.te[i].s), e |-> e.es[k].t - Moved(e, e.te[i].s)]]
                         IN  Check(Tiles(ps, Part(e, i)) /\ WithinLimits(ps, Part(e, i), cfg.hard, cfg.soft), "tiling", "", e.es)
Init == l = 1 /\ cfg = [bad |-> TRUE]
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
