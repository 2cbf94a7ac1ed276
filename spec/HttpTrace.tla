----------------------------- MODULE HttpTrace -----------------------------
(* Validates traces of a real request parser fed piece by piece (drivers/server_driver.cpp). *)
EXTENDS HttpOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
vars == <<l, s>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       IF e.op \in {"new", "again"} THEN s' = Fresh
       ELSE LET x == Read(s, e.b, 1) q == e.req IN
            /\ s' = x.s
            /\ Check(e.res = x.s.r, "verdict", x.s.r, e.res)
            /\ Check(e.used = x.n, "bytes consumed", x.n, e.used)
            /\ (x.s.r # "bad" =>
                /\ Check(q.m = x.s.m, "method", x.s.m, q.m)
                /\ Check(q.u = x.s.u, "address", x.s.u, q.u)
                /\ Check(q.hs = x.s.hs, "headers", x.s.hs, q.hs)
                /\ Check(q.body = x.s.body, "body", x.s.body, q.body)
                /\ Check(x.s.at \in {"method0", "method", "address", "http"} \/ (q.maj = x.s.maj /\ q.min = x.s.min),
                         "version", <<x.s.maj, x.s.min>>, <<q.maj, q.min>>))
Init == l = 1 /\ s = Fresh
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
