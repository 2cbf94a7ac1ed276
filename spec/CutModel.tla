----------------------------- MODULE CutModel -----------------------------
(* A cutter as a machine: it hands out one piece per call, keeps the fragments of a piece that was too long in a queue,
   and (segmenter) keeps for every rule the last match looked for.  Checked against Pieces of CutOps, which says what
   the pieces of a text are. *)
EXTENDS CutOps, TLC, Json
CONSTANTS Kind, Alphabet, MaxText, MaxRules, Limits, Rounds, Emit

I(c, r) == [cls |-> <<c>>, neg |-> FALSE, rep |-> r]
N(c, r) == [cls |-> <<c>>, neg |-> TRUE, rep |-> r]
TokRules == { [c |-> "Ra", re |-> <<<<I("a", "+")>>>>], [c |-> "Rb", re |-> <<<<I("a", "1"), I("b", "?")>>>>],
              [c |-> "Rc", re |-> <<<<I("a", "*")>>, <<I("b", "1"), I(" ", "1")>>>>],
              [c |-> "Rd", re |-> <<<<I("a", "1"), I("a", "1")>>, <<N("a", "1")>>>>],
              [c |-> "Re", re |-> <<<<N(" ", "+"), I("b", "1")>>>>] }
Pats == { <<<<<<I(".", "1")>>>>, <<<<>>>>>>, <<<<<<I(".", "1")>>>>, <<<<I(" ", "1")>>>>>>,
          <<<<<<I("a", "1"), I(".", "1")>>>>, <<<<>>>>>>, <<<<<<I(".", "1"), I(" ", "1")>>>>, <<<<>>>>>>,
          <<<<<<>>>>, <<<<I("a", "1")>>>>>>, <<<<<<I(".", "+")>>>>, <<<<N(".", "1")>>>>>>,
          <<<<<<I("a", "1")>>, <<I(" ", "1")>>>>, <<<<I(".", "1")>>, <<I("a", "1")>>>>>> }
SrxRuleSet == { [brk |-> k, bef |-> p[1], aft |-> p[2]] : k \in BOOLEAN, p \in Pats }
Universe == IF Kind = "tok" THEN TokRules ELSE SrxRuleSet
RuleLists == UNION { [1..n -> Universe] : n \in 1..MaxRules }
Texts == UNION { [1..n -> Alphabet] : n \in 1..MaxText }

VARIABLES rules, lim, t, pos, queue, out, apps, round
vars == <<rules, lim, t, pos, queue, out, apps, round>>
NoApps == [i \in DOMAIN rules |-> [st |-> 0, bp |-> -1]]
n == Len(t)

\* the segmenter's search: [apps, bp] after looking for the next break of rule i not before min
RECURSIVE Look(_, _, _)
Look(ap, r, min) ==
    IF ap.st < n /\ (ap.bp = -1 \/ ap.bp < min)
    THEN LET S == { s \in ap.st..(n - 1) : RuleBreak(r, t, s) # -1 }
         IN  IF S = {} THEN [st |-> n, bp |-> -1]
             ELSE LET s == CHOOSE x \in S : \A y \in S : x <= y
                  IN  Look([st |-> s + 1, bp |-> RuleBreak(r, t, s)], r, min)
    ELSE IF ap.bp < min THEN [ap EXCEPT !.bp = -1] ELSE ap
Jump(ap) == [ap EXCEPT !.st = IF @ < pos THEN pos ELSE @]
Jumped == [i \in DOMAIN apps |-> Jump(apps[i])]
RECURSIVE Vetoed(_, _, _, _)
Vetoed(aps, j, i, q) ==            \* whether a no-break rule before rule i applies at q
    IF j >= i THEN [aps |-> aps, no |-> FALSE]
    ELSE IF rules[j].brk THEN Vetoed(aps, j + 1, i, q)
    ELSE LET a == Look(aps[j], rules[j], q) aps2 == [aps EXCEPT ![j] = a]
         IN  IF a.bp = q THEN [aps |-> aps2, no |-> TRUE] ELSE Vetoed(aps2, j + 1, i, q)
RECURSIVE Nearest(_, _)
Nearest(aps, min) ==
    LET aps2 == [i \in DOMAIN aps |-> IF rules[i].brk THEN Look(aps[i], rules[i], min) ELSE aps[i]]
        C == { i \in DOMAIN aps2 : rules[i].brk /\ aps2[i].bp # -1 }
    IN  IF C = {} THEN [aps |-> aps2, q |-> n]
        ELSE LET i == CHOOSE x \in C : \A y \in C : aps2[x].bp < aps2[y].bp \/ (aps2[x].bp = aps2[y].bp /\ x <= y)
                 q == aps2[i].bp
                 v == Vetoed(aps2, 1, i, q)
             IN  IF v.no THEN Nearest(v.aps, q + 1) ELSE [aps |-> v.aps, q |-> q]

Init == /\ rules \in RuleLists /\ lim \in Limits \X Limits /\ t \in Texts
        /\ pos = 0 /\ queue = <<>> /\ out = <<>> /\ round = 1 /\ apps = NoApps
Failed == Fails(out)
Done == pos = n \/ Failed
Give(p, q) == /\ out' = Append(out, p) /\ queue' = q /\ pos' = p.e
FromQueue == /\ ~Done /\ queue # <<>> /\ Give(queue[1], Tail(queue)) /\ UNCHANGED <<rules, lim, t, apps, round>>
CutNext ==
    /\ ~Done /\ queue = <<>>
    /\ LET k == IF Kind = "tok" THEN TokenAt(rules, t, pos) ELSE [c |-> "sen", e |-> Nearest(Jumped, pos + 1).q]
           ps == Limited(<<[c |-> k.c, b |-> pos, e |-> k.e]>>, t, lim[1], lim[2])
       IN  /\ apps' = IF Kind = "tok" THEN apps ELSE Nearest(Jumped, pos + 1).aps
           /\ Give(ps[1], Tail(ps))
    /\ UNCHANGED <<rules, lim, t, round>>
Again == /\ Done /\ round < Rounds /\ round' = round + 1 /\ t' \in {x \in Texts : Len(x) <= 3}
         /\ pos' = 0 /\ queue' = <<>> /\ out' = <<>> /\ apps' = NoApps /\ UNCHANGED <<rules, lim>>
Next == FromQueue \/ CutNext \/ Again
Spec == Init /\ [][Next]_vars

Want == Pieces(Kind, rules, t, lim[1], lim[2])
Regular == Kind = "tok" \/ Decided(rules, t)
Follows == Regular => /\ Len(out) <= Len(Want)
                      /\ \A i \in DOMAIN out : out[i] = Want[i]
                      /\ Done => out = Want
Covers == (Done /\ ~Failed) => Tiles(out, t) /\ WithinLimits(out, t, lim[1], lim[2])
FailsOnlyWhenNeeded == Failed => lim[1] # 0 /\ \E i \in 1..n : CWidth(t[i]) > lim[1]
\* a break is where a break rule applies and no no-break rule before it does; nowhere else without limits
BreaksRight == (Kind = "srx" /\ Regular /\ pos = n /\ lim = <<0, 0>>) =>
    \A q \in 1..(n - 1) : (\E i \in DOMAIN out : out[i].e = q) <=>
        \E i \in DOMAIN rules : rules[i].brk /\ q \in Applies(rules[i], t)
                                /\ ~ \E j \in 1..(i - 1) : ~rules[j].brk /\ q \in Applies(rules[j], t)
Printed == (Emit /\ pos = 0 /\ round = 1) =>
    PrintT("SCRIPT " \o ToJson([kind |-> Kind, rules |-> rules, t |-> t, hard |-> lim[1], soft |-> lim[2]]))
EmitOnly == ~Emit \/ pos = 0
=============================================================================
