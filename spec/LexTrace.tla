----------------------------- MODULE LexTrace -----------------------------
(* Validates what real lexica, key-value stores and vectors answer (drivers/lex_driver.cpp) against LexOps. *)
EXTENDS LexOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,
          lex,      \* the lexicon: <<>> before there is one, else <<function>>
          files,    \* file number -> sequence of stores in it
          kv,       \* slot -> store
          sv, mv    \* slot -> vector of texts, of numbers
vars == <<l, lex, files, kv, sv, mv>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)
Set(f, k, v) == (k :> v) @@ f
None == [i \in {} |-> 0]
Vec(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>

\* kept vectors: everything about them, and where a text is
VectorOK(e, v) ==
    /\ Check(e.all = v /\ e.size = Len(v) /\ e.it = v, "contents", v, e.all)
    /\ Check(v = <<>> \/ e.last = <<v[Len(v)]>>, "last", v, e.last)
TextsAt(e, v) == \A i \in DOMAIN e.q : e.q[i] \in Range(v) =>
                    Check(e.fq[i] = FirstAt(v, e.q[i]) - 1, "position", FirstAt(v, e.q[i]) - 1, e.fq[i])

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "reset" -> lex' = <<>> /\ files' = None /\ kv' = None /\ sv' = None /\ mv' = None
         [] e.op = "text" ->
              LET x == ReadText(e.lines) IN
              /\ Check(e.r = (IF x.ok THEN "ok" ELSE "error"), "outcome", x.ok, e.r)
              /\ lex' = IF x.ok THEN << x.lex >> ELSE lex
              /\ UNCHANGED <<files, kv, sv, mv>>
         [] e.op = "ask" ->
              /\ Check(e.none = (lex = <<>>), "whether there is a lexicon", lex, e.none)
              /\ lex # <<>> => \A i \in DOMAIN e.ks :
                    Check(e.res[i] = Records(lex[1], e.ks[i]), "records", <<e.ks[i], Records(lex[1], e.ks[i])>>, e.res[i])
              /\ UNCHANGED <<lex, files, kv, sv, mv>>
         [] e.op = "savelex" ->
              /\ files' = IF lex = <<>> THEN files ELSE Set(files, e.f, lex)
              /\ UNCHANGED <<lex, kv, sv, mv>>
         [] e.op = "loadlex" ->
              /\ lex' = IF e.f \in DOMAIN files THEN << files[e.f][1] >> ELSE lex
              /\ UNCHANGED <<files, kv, sv, mv>>
         [] e.op = "build" ->
              kv' = Set(kv, e.s, FromPairs(e.es)) /\ UNCHANGED <<lex, files, sv, mv>>
         [] e.op = "get" ->
              /\ e.s \in DOMAIN kv => \A i \in DOMAIN e.ks :
                    LET want == IF Found(kv[e.s], e.ks[i]) THEN << kv[e.s][e.ks[i]] >> ELSE <<>>
                    IN  Check(e.res[i] = want, "value", <<e.ks[i], want>>, e.res[i])
              /\ UNCHANGED <<lex, files, kv, sv, mv>>
         [] e.op = "save" ->       \* some stores into one file, after one another
              /\ files' = IF \A i \in DOMAIN e.ss : e.ss[i] \in DOMAIN kv
                          THEN Set(files, e.f, [i \in DOMAIN e.ss |-> kv[e.ss[i]]]) ELSE files
              /\ UNCHANGED <<lex, kv, sv, mv>>
         [] e.op = "load" ->       \* all of them into slots from e.s on
              /\ kv' = IF e.f \in DOMAIN files
                       THEN [k \in e.s..(e.s + Len(files[e.f]) - 1) |-> files[e.f][k - e.s + 1]] @@ kv ELSE kv
              /\ UNCHANGED <<lex, files, sv, mv>>
         [] e.op = "texts" ->
              LET v == Vec(sv, e.s) \o e.vs IN
              /\ VectorOK(e, v) /\ TextsAt(e, v)
              /\ sv' = Set(sv, e.s, v) /\ UNCHANGED <<lex, files, kv, mv>>
         [] e.op = "retexts" ->    \* slot e.s written, then read into slot e.to
              LET v == Vec(sv, e.s) IN
              /\ VectorOK(e, v) /\ TextsAt(e, v)
              /\ sv' = Set(sv, e.to, v) /\ UNCHANGED <<lex, files, kv, mv>>
         [] e.op = "numbers" ->
              LET v == Vec(mv, e.s) \o e.vs IN
              /\ VectorOK(e, v)
              /\ mv' = Set(mv, e.s, v) /\ UNCHANGED <<lex, files, kv, sv>>
         [] e.op = "renumbers" ->
              LET v == Vec(mv, e.s) IN
              /\ VectorOK(e, v)
              /\ mv' = Set(mv, e.to, v) /\ UNCHANGED <<lex, files, kv, sv>>
Init == l = 1 /\ lex = <<>> /\ files = None /\ kv = None /\ sv = None /\ mv = None
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
