---------------------------- MODULE SessionTrace ----------------------------
(* Validates traces of sessions (requests with cookies, forms, the session data), of stored files
   and of identifiers (drivers/server_driver.cpp). *)
EXTENDS SiteOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ses, files, sums
vars == <<l, ses, files, sums>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

CookieName == <<80, 83, 73, 83, 69, 83, 83, 73, 79, 78, 73, 68, 61>>     \* with its =
\* value of the first cookie of that name
RECURSIVE Named(_, _)
Trim(s) == LET S == { i \in DOMAIN s : s[i] \notin {32, 9} } IN IF S = {} THEN <<>> ELSE SubSeq(s, CHOOSE i \in S : \A j \in S : i <= j, Len(s))
Named(cs, i) == IF i > Len(cs) THEN <<>>
                ELSE LET t == Trim(cs[i]) IN IF StartsWith(t, CookieName) THEN SubSeq(t, Len(CookieName) + 1, Len(t)) ELSE Named(cs, i + 1)
IdOf(cookie) == Named(Split(cookie, 59), 1)
WhoAddr == <<47, 119, 104, 111, 46, 104, 116, 109, 108>>
Pause == <<112, 97, 117, 115, 101>>
Body(id) == <<91>> \o id \o <<93>>
Put(d, k, v) == IF k = <<>> THEN d ELSE [x \in DOMAIN d \cup {k} |-> IF x = k THEN v ELSE d[x]]
PutAll(d, ps) == FoldLeft(LAMBDA a, p : Put(a, p.k, p.v), d, ps)
\* sessions as the manager shows them (the value under the empty name is of no interest)
Shown(st) == [x \in { st[i].id : i \in DOMAIN st } |->
                LET s == st[CHOOSE i \in DOMAIN st : st[i].id = x].data
                    S == { i \in DOMAIN s : s[i].k # <<>> }
                IN  [k \in { s[i].k : i \in S } |-> s[CHOOSE i \in S : s[i].k = k].v]]
NewId(o) == IF Len(o.hs) = 3 /\ o.hs[3].n = "Set-Cookie" /\ StartsWith(o.hs[3].b, CookieName)
            THEN SubSeq(o.hs[3].b, Len(CookieName) + 1, Len(o.hs[3].b)) ELSE <<>>
\* who a request is handled as
Handled(cookie, o) == IF IdOf(cookie) \in DOMAIN ses THEN IdOf(cookie) ELSE NewId(o)
Answer(cookie, o, other) ==
    LET known == IdOf(cookie) \in DOMAIN ses IN
    /\ Check(known => Len(o.hs) = 2, "cookie for a known session", 2, o.hs)
    /\ Check(~known => (NewId(o) # <<>> /\ NewId(o) \notin DOMAIN ses \cup other), "new session", DOMAIN ses, o.hs)
    /\ Check(o.line = StatusLine(200) /\ o.body = Body(Handled(cookie, o)), "page made for this session", Body(Handled(cookie, o)), o)
Grown(id) == IF id \in DOMAIN ses THEN ses ELSE [x \in DOMAIN ses \cup {id} |-> IF x = id THEN << >> ELSE ses[x]]
Form(m, u, ctype, body) == IF ActionEnd(m, u) # 0 /\ ActionOf(m, u) = Pause THEN Submitted(m, u, ctype, body) ELSE <<>>
FormOf(r, post) == Form(IF post THEN POST ELSE <<>>, r.uri, r.ctype, r.body)
With(ss, id, ps) == [x \in DOMAIN ss \cup {id} |-> IF x = id THEN PutAll(IF id \in DOMAIN ss THEN ss[id] ELSE << >>, ps) ELSE ss[x]]
Stored(e) == /\ Check(Shown(e.st) = ses', "session data", ses', Shown(e.st))
             /\ Check(\A i \in DOMAIN e.st : e.st[i].own, "sessions known by their own identifiers", TRUE, e.st)
Req(e) ==
    LET id == Handled(e.sent, e.out) IN
    /\ Answer(e.sent, e.out, {})
    /\ ses' = With(ses, id, FormOf(e, e.post))
    /\ Stored(e)
Wreq(e) ==
    LET x == Read(Fresh, Flat(e.chunks), 1).s id == NewId(e.out) IN
    /\ Check(x.r = "ok" /\ ~e.silent, "answered", x, e.silent)
    /\ Answer(<<>>, e.out, {})
    /\ ses' = With(ses, id, Form(x.m, x.u, Header(x.hs, ContentType), x.body))
    /\ Stored(e)
\* two requests at once: as if one had come before the other
Two(e) ==
    LET i1 == Handled(e.sents[1], e.outs[1]) i2 == Handled(e.sents[2], e.outs[2])
        f1 == FormOf(e.r[1], e.posts[1]) f2 == FormOf(e.r[2], e.posts[2])
        a == With(With(ses, i1, f1), i2, f2) b == With(With(ses, i2, f2), i1, f1)
    IN
    /\ Answer(e.sents[1], e.outs[1], {})
    /\ Answer(e.sents[2], e.outs[2], IF IdOf(e.sents[1]) \in DOMAIN ses THEN {} ELSE {i1})
    /\ ses' = IF Shown(e.st) = b THEN b ELSE a
    /\ Stored(e)
Present(id, k) == k \in DOMAIN ses'[id] /\ ses'[id][k] # <<>>
Val(d, k) == IF k \in DOMAIN d THEN d[k] ELSE <<>>
Data(e) ==
    LET id == e.st[e.s].id d == ses[id] IN
    /\ ses' = CASE e.how = "set" -> [ses EXCEPT ![id] = Put(@, e.k, e.v)]
                [] e.how = "clear" -> [ses EXCEPT ![id] = Put(@, e.k, <<>>)]
                [] e.how = "default" -> IF Val(d, e.k) = <<>> THEN [ses EXCEPT ![id] = Put(@, e.k, e.v)] ELSE ses
                [] OTHER -> ses
    /\ Check(e.how \in {"get", "default"} => e.r = Val(ses'[id], e.k), "value", Val(ses'[id], e.k), e.r)
    /\ Check(e.is = (Val(ses'[id], e.k) # <<>>), "presence", Val(ses'[id], e.k), e.is)
    /\ Check(e.known, "known session", TRUE, e.known)
    \* cleared values and values never set are the same
    /\ LET norm(f) == [x \in DOMAIN f |-> [k \in { y \in DOMAIN f[x] : f[x][y] # <<>> } |-> f[x][k]]]
       IN  Check(norm(Shown(e.st)) = norm(ses'), "session data", ses', Shown(e.st))
StoragePath == <<47, 115, 116, 111, 114, 97, 103, 101, 47>>
EndsWith(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t
Store(e) ==
    LET p == e.path key == <<e.c, e.ext>> IN
    /\ Check(StartsWith(p, StoragePath) /\ (e.how = "auto" \/ EndsWith(p, <<Dot>> \o e.ext)), "name of the stored file", e.ext, p)
    /\ IF e.how = "sum"
       THEN /\ Check(p \in DOMAIN files => files[p] = e.c, "name shared with other contents", files, p)
            /\ Check(key \in DOMAIN sums => p = sums[key], "one file for equal contents", sums, p)
            /\ sums' = [x \in DOMAIN sums \cup {key} |-> IF x = key THEN p ELSE sums[x]]
       ELSE /\ Check(p \notin DOMAIN files, "a name used before", DOMAIN files, p)
            /\ UNCHANGED sums
    /\ files' = [x \in DOMAIN files \cup {p} |-> IF x = p THEN e.c ELSE files[x]]
    /\ LET on == [x \in { e.all[i].p : i \in DOMAIN e.all } |-> e.all[CHOOSE i \in DOMAIN e.all : e.all[i].p = x].c]
       IN  Check(on = files', "files on disk", files', on)
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "sessions" -> ses' = << >> /\ UNCHANGED <<files, sums>>
         [] e.op = "req" -> Req(e) /\ UNCHANGED <<files, sums>>
         [] e.op = "wreq" -> Wreq(e) /\ UNCHANGED <<files, sums>>
         [] e.op = "two" -> Two(e) /\ UNCHANGED <<files, sums>>
         [] e.op = "data" -> Data(e) /\ UNCHANGED <<files, sums>>
         [] e.op = "guids" -> /\ Check(e.distinct = e.n, "distinct identifiers", e.n, e.distinct)
                              /\ Check(e.shortest = (IF e.len < 16 THEN 16 ELSE e.len), "length", e.len, e.shortest)
                              /\ UNCHANGED <<ses, files, sums>>
         [] e.op = "room" -> files' = << >> /\ sums' = << >> /\ UNCHANGED ses
         [] e.op = "storage" -> UNCHANGED <<ses, files, sums>>
         [] e.op = "store" -> Store(e) /\ UNCHANGED ses
Init == l = 1 /\ ses = <<>> /\ files = <<>> /\ sums = <<>>
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
