---------------------------- MODULE SiteTrace ----------------------------
(* Validates traces of the real page server: requests handed to the request handlers directly and
   requests sent over a socket to the running server (drivers/server_driver.cpp). *)
EXTENDS SiteOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, site
vars == <<l, site>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

Empty == [files |-> << >>, gens |-> << >>, acts |-> << >>]
Table(s, k, v) == [x \in { s[i][k] : i \in DOMAIN s } |-> s[CHOOSE i \in DOMAIN s : s[i][k] = x][v]]
Files(s) == [x \in { Components(s[i].p) : i \in DOMAIN s } |-> s[CHOOSE i \in DOMAIN s : Components(s[i].p) = x].c]
\* a reply as the client sees it; only successful pages have a type of their own
Reply(o, a, cookie) ==
    /\ Check(o.line = StatusLine(a.status), "status", StatusLine(a.status), o.line)
    /\ Check(o.body = a.content, "content", a.content, o.body)
    /\ Check(Len(o.hs) = IF cookie THEN 3 ELSE 2, "number of headers", cookie, o.hs)
    /\ Check(o.hs[1].n = "Content-Length" /\ o.hs[1].v = ToString(Len(a.content)), "length", Len(a.content), o.hs[1])
    /\ Check(o.hs[2].n = "Content-Type" /\ (a.status = 200 => o.hs[2].v = a.type), "type", a, o.hs[2])
    /\ cookie => Check(o.hs[3].n = "Set-Cookie", "cookie", "Set-Cookie", o.hs[3])
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "site" -> site' = [files |-> Files(e.files), gens |-> Table(e.gens, "code", "text"), acts |-> Table(e.acts, "code", "to")]
         [] e.op = "get" -> /\ UNCHANGED site
                            /\ IF e.h = "base" THEN Reply(e.out, Page(site.files, e.uri), FALSE)
                               ELSE Reply(e.out, PsiPage(site, IF e.method = "POST" THEN POST ELSE <<>>, e.uri), TRUE)
         [] e.op = "wire" -> /\ UNCHANGED site
                             /\ LET x == Read(Fresh, Flat(e.chunks), 1).s
                                IN  /\ Check(e.silent = (x.r = "more"), "answered", x.r, e.silent)
                                    /\ x.r = "bad" => Reply(e.out, Refused, FALSE)
                                    /\ x.r = "ok" => Reply(e.out, PsiPage(site, x.m, x.u), TRUE)
Init == l = 1 /\ site = Empty
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
