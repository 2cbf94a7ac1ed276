------------------------------ MODULE PsiTrace ------------------------------
(* Validates documents written in the native format and read back by the real code (drivers/psi_driver.cpp).
   A line "psi" carries the document, the rows of the file written (split into columns and unescaped by the
   driver), the document read back, the rows of that document and whether a third round is the same bytes. *)
EXTENDS PsiOps, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]

Mismatch(what, exp, obs) ==
    /\ PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>)
    /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

\* the annotations of a document as the driver shows it
Shown(es) ==
    LET k(i) == IF Bare(Range(es[i].g)) THEN BareLink(es[i].s, es[i].t)
                ELSE <<"ann", es[i].s, es[i].t, es[i].c, es[i].x, es[i].a, PPlane(Range(es[i].g))>>
    IN  { [s |-> es[i].s, t |-> es[i].t, c |-> es[i].c, x |-> es[i].x, a |-> es[i].a, g |-> Range(es[i].g), w |-> es[i].w,
           p |-> [j \in DOMAIN es[i].p |-> [l |-> [n \in DOMAIN es[i].p[j].l |-> IF es[i].p[j].l[n] = 0 THEN <<"unlisted", 0, 0>> ELSE k(es[i].p[j].l[n])],
                                            q |-> es[i].p[j].q, g |-> Range(es[i].p[j].g), w |-> es[i].p[j].w]]]
          : i \in { n \in DOMAIN es : ~Bare(Range(es[n].g)) } }

\* the document only has what the format can tell
InDomain(ch, E) ==
    /\ \A e \in E : \A i \in DOMAIN e.p :
         LET q == e.p[i].l
         IN q # <<>> => /\ q[1][2] = e.s /\ q[Len(q)][3] = e.t
                        /\ \A n \in 1..(Len(q) - 1) : q[n][3] = q[n + 1][2]
    /\ \A d, e \in E : d # e => Link(d) # Link(e)

\* the text, at least up to the last point there is anything at (bare characters included)
Enough(all, ch, es) ==
    /\ IsPrefix(ch, all)
    /\ \A i \in DOMAIN es : es[i].s <= PWidth(ch) /\ es[i].t <= PWidth(ch)

PsiOK(e) ==
    LET D == Shown(e.doc)
        R == Read(e.rows)
        D2 == Shown(e.doc2)
        R2 == Read(e.rows2)
    IN  InDomain(e.ch, D) =>
        /\ Check(e.r = "ok", "outcome", "ok", e.r)
        /\ Check(R.ok, "rows make no sense", "", e.rows)
        /\ Check(Enough(e.ch, R.ch, e.doc), "text in the file", e.ch, R.ch)
        /\ Check(R.E = D, "annotations in the file", D \ R.E, R.E \ D)
        /\ Check(e.ch2 = R.ch, "text read back", R.ch, e.ch2)
        /\ Check(SameUpToPoints(D, D2), "annotations read back", D \ D2, D2 \ D)
        /\ Check(R2.ok /\ R2.ch = R.ch /\ R2.E = D2, "the document read back, written", D2 \ R2.E, R2.E \ D2)
        /\ (Cardinality(Extra(D)) <= 1) => Check(e.same, "written a third time", "", "")

Init == l = 1
Step == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ Ev.op = "psi" => PsiOK(Ev)
Spec == Init /\ [][Step]_l
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
