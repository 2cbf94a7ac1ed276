----------------------------- MODULE RunTrace -----------------------------
(* Validates runs of the real PipeRunner (drivers/run_driver.cpp).  Where the pipeline is one of RunOps, everything it
   writes is prescribed.  For any other pipeline, what is written for a line (or a document) on its own, by a new runner
   in a new process, is taken as what its processors do with it, and every other run is made of that. *)
EXTENDS RunOps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, pipes, memo, runners
vars == <<l, pipes, memo, runners>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)
Got(e) == [out |-> e.out, fail |-> e.fail]

Exact(p) == Len(pipes[p]) > 0
LineKey(p, x) == <<p, "line", <<x>>, FALSE>>
DocKey(p, ls, final) == <<p, "doc", ls, final>>
Text(e) == TextOfLines(e.ls, e.final)
OfLine(p, x) == IF Exact(p) THEN LineOut(pipes[p][1], x) ELSE memo[LineKey(p, x)]
Known(p, ls) == IF Exact(p) THEN \A i \in DOMAIN ls : DocDecided(pipes[p][1], LinesOf(ls[i])) ELSE \A i \in DOMAIN ls : LineKey(p, ls[i]) \in DOMAIN memo

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "reset" -> pipes' = << >> /\ memo' = << >> /\ runners' = << >>
         [] e.op = "file" -> UNCHANGED <<pipes, memo, runners>>
         [] e.op = "pipe" -> pipes' = (e.p :> e.exact) @@ pipes /\ UNCHANGED <<memo, runners>>
         [] e.op = "alone" ->
              LET key == IF e.mode = "line" THEN LineKey(e.p, e.ls[1]) ELSE DocKey(e.p, e.ls, e.final)
                  lines == IF e.mode = "line" THEN LinesOf(e.ls[1]) ELSE LinesOf(Text(e))
              IN  /\ memo' = (key :> Got(e)) @@ memo /\ UNCHANGED <<pipes, runners>>
                  /\ Check(e.out # "crash", "a run on its own", "no crash", e.out)
                  /\ (key \in DOMAIN memo) => Check(Got(e) = memo[key], "run on its own, again", memo[key], Got(e))
                  /\ (Exact(e.p) /\ DocDecided(pipes[e.p][1], lines)) =>
                        LET want == DocOut(pipes[e.p][1], lines) IN Check(Got(e) = want, "run on its own", want, Got(e))
         [] e.op = "new" ->
              /\ runners' = (e.r :> [p |-> e.p, byline |-> e.byline]) @@ runners /\ UNCHANGED <<pipes, memo>>
              /\ Check(~e.fail, "a runner for a pipeline", "made", e.out)
         [] e.op = "one" ->
              /\ UNCHANGED <<pipes, memo, runners>>
              /\ Known(runners[e.r].p, e.ls) =>
                   LET want == OfLine(runners[e.r].p, e.ls[1]) IN Check(Got(e) = want, "a single line", want, Got(e))
         [] e.op = "feed" ->
              LET p == runners[e.r].p
                  ls == LinesOf(Text(e))
              IN  /\ UNCHANGED <<pipes, memo, runners>>
                  /\ IF runners[e.r].byline
                     THEN Known(p, ls) =>
                            LET F(x) == OfLine(p, x)
                                want == ByLine(F, ls)
                            IN  Check(Got(e) = want, "line by line", want, Got(e))
                     ELSE IF Exact(p)
                     THEN DocDecided(pipes[p][1], ls) =>
                            LET want == DocOut(pipes[p][1], ls) IN Check(Got(e) = want, "a document", want, Got(e))
                     ELSE DocKey(p, e.ls, e.final) \in DOMAIN memo =>
                            LET want == memo[DocKey(p, e.ls, e.final)] IN Check(Got(e) = want, "a document", want, Got(e))
Init == l = 1 /\ pipes = << >> /\ memo = << >> /\ runners = << >>
Spec == Init /\ [][Step]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace) \/ (PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE)
=============================================================================
