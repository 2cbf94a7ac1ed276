---------------------------- MODULE CacheTrace ----------------------------
(* Validates traces of the real object cache (drivers/server_driver.cpp): one object per path and
   generation, nothing kept of a failed load, objects handed out stay what they were. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, cached, loads, unloadable, kept
vars == <<l, cached, loads, unloadable, kept>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "cache" -> cached' = << >> /\ loads' = 0 /\ unloadable' = {} /\ kept' = <<>>
         [] e.op = "break" -> unloadable' = (IF e.b THEN unloadable \cup {e.p} ELSE unloadable \ {e.p}) /\ UNCHANGED <<cached, loads, kept>>
         [] e.op = "clear" -> cached' = << >> /\ UNCHANGED <<loads, unloadable, kept>>
         [] e.op = "load" ->
              LET hit == e.p \in DOMAIN cached
                  fails == ~hit /\ e.p \in unloadable
                  got == IF hit THEN cached[e.p] ELSE IF fails THEN [path |-> "", number |-> 0] ELSE [path |-> e.p, number |-> loads + 1]
              IN  /\ loads' = (IF hit THEN loads ELSE loads + 1)
                  /\ cached' = (IF hit \/ fails THEN cached ELSE [x \in DOMAIN cached \cup {e.p} |-> IF x = e.p THEN got ELSE cached[x]])
                  /\ kept' = (IF e.keep /\ ~fails THEN Append(kept, got) ELSE kept)
                  /\ UNCHANGED unloadable
                  /\ Check(e.got = got, "object", got, e.got)
                  /\ Check(e.loads = loads', "number of loads", loads', e.loads)
                  /\ Check(e.kept = kept', "objects handed out", kept', e.kept)
Init == l = 1 /\ cached = <<>> /\ loads = 0 /\ unloadable = {} /\ kept = <<>>
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
