------------------------------ MODULE FsaTrace ------------------------------
(* Validates traces of the real automata (drivers/fsa_driver.cpp).  The state holds the automata as
   they are; every step is compared with what the operation means. *)
EXTENDS FsaOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, slot
vars == <<l, slot>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)
Rg(s) == { s[i] : i \in DOMAIN s }
Auto(x) == [q |-> 0..(x.n - 1), s |-> Rg(x.s), f |-> Rg(x.f), d |-> { <<m[1], m[2], m[3]>> : m \in Rg(x.d) }]

Means(f, A) == CASE f = "reverse" -> Rev(A) [] f = "option" -> Opt(A) [] f = "plus" -> Plus(A) [] f = "star" -> Star(A)
                 [] OTHER -> A
Shape(f, A, n) ==
    CASE f = "reachable" -> Check(AllReachable(n), "all states reachable", A, n)
      [] f = "prune" -> Check(AllProductive(n), "all states lead to an end", A, n)
      [] f = "epsRemove" -> Check(NoEps(n), "no empty moves", A, n)
      [] f = "determinize" -> Check(Deterministic(n), "deterministic", A, n)
      [] f = "minimize" -> Check(Minimal(n), "minimal", A, n)
      [] OTHER -> TRUE
Means2(f, A, B) == CASE f = "unify" -> Union2(A, B) [] f = "concatenate" -> Concat(A, B)
                     [] f = "intersect" -> Both(A, B, FALSE) [] f = "intersectAny" -> Both(A, B, TRUE)
                     [] OTHER -> B
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ LET e == Ev IN
       CASE e.op = "reset" -> slot' = << >>
         [] e.op = "build" ->
              LET n == Auto(e.now) IN
              /\ slot' = (e.a :> n) @@ slot
              /\ Check(n = Auto(e.m), "automaton as built", Auto(e.m), n)
         [] e.op = "word" ->
              LET n == Auto(e.now) IN
              /\ slot' = (e.a :> n) @@ slot
              /\ Check(SameLanguage(n, Word(e.w)), "automaton for a word", e.w, n)
         [] e.op = "apply" ->
              LET A == slot[e.a]  n == Auto(e.now) IN
              /\ slot' = [slot EXCEPT ![e.a] = n]
              /\ Check(SameLanguage(n, Means(e.f, A)), "language", Means(e.f, A), n)
              /\ Shape(e.f, A, n)
         [] e.op = "combine" ->
              LET A == slot[e.a]  B == slot[e.b]  n == Auto(e.now)  o == Auto(e.other) IN
              /\ slot' = [slot EXCEPT ![e.a] = n, ![e.b] = o]
              /\ Check(SameLanguage(n, Means2(e.f, A, B)), "language", Means2(e.f, A, B), n)
              /\ IF e.a = e.b THEN TRUE ELSE Check(o = IF e.f = "swap" THEN A ELSE B, "the other automaton", B, o)
         [] e.op = "in" ->
              /\ UNCHANGED slot
              /\ Check(e.res = Accepts(slot[e.a], e.w), "accepts", Accepts(slot[e.a], e.w), e.res)
              /\ Check(Auto(e.now) = slot[e.a], "unchanged", slot[e.a], e.now)
         [] e.op = "todet" ->
              LET A == slot[e.a]  want == [i \in DOMAIN e.ws |-> Accepts(A, e.ws[i])] IN
              /\ UNCHANGED slot
              /\ Check(e.res = want, "accepts", want, e.res)
              /\ Check(Rg(e.lang) = WordsUpTo(A, e.k) /\ Len(e.lang) = Cardinality(Rg(e.lang)), "words", WordsUpTo(A, e.k), e.lang)
              /\ Check(Auto(e.now) = slot[e.a], "unchanged", slot[e.a], e.now)
         [] e.op = "incremental" ->
              LET n == Auto(e.got)  want == OfWords(Rg(e.ws)) IN
              /\ UNCHANGED slot
              /\ Check(SameLanguage(n, want), "language", want, n)
              /\ Check(Minimal(n), "minimal", want, n)
Init == l = 1 /\ slot = << >>
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
