------------------------------ MODULE CutOps ------------------------------
(* Cutting a text into pieces: tokenization rules, segmentation (SRX) rules, length limits.
   A text is a sequence of characters; W(c) is the number of bytes of a character; a position is the number of
   characters before it.  An item of a pattern is [cls, neg, rep]: one of (or none of) the characters of cls,
   once ("1"), at most once ("?"), at least once ("+") or any number of times ("*"), preferring more to fewer.
   A branch is a sequence of items, a pattern a sequence of branches, of which the first that matches counts. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

CWidth(c) == CASE c \in {"ł", "ó", "ż"} -> 2 [] c \in {"€", "…"} -> 3 [] c \in {"𝄞"} -> 4 [] OTHER -> 1

RECURSIVE BytesTo(_, _)
BytesTo(t, p) == IF p = 0 THEN 0 ELSE BytesTo(t, p - 1) + CWidth(t[p])

\* ==== patterns ====
RECURSIVE ItemEnds(_, _, _, _, _)
ItemEnds(b, k, rep, t, i) ==       \* all ends of matches of b[k..] (b[k] taken with rep) from i, preferred first
    IF k > Len(b) THEN <<i>>
    ELSE LET ok == i < Len(t) /\ ((t[i + 1] \in ToSet(b[k].cls)) # b[k].neg)
             next == IF k < Len(b) THEN b[k + 1].rep ELSE "1"
             go == ItemEnds(b, k + 1, next, t, i)
         IN  CASE rep = "1" -> IF ok THEN ItemEnds(b, k + 1, next, t, i + 1) ELSE <<>>
               [] rep = "?" -> (IF ok THEN ItemEnds(b, k + 1, next, t, i + 1) ELSE <<>>) \o go
               [] rep = "*" -> (IF ok THEN ItemEnds(b, k, "*", t, i + 1) ELSE <<>>) \o go
               [] rep = "+" -> IF ok THEN ItemEnds(b, k, "*", t, i + 1) ELSE <<>>
BranchEnds(b, t, i) == ItemEnds(b, 1, IF Len(b) = 0 THEN "1" ELSE b[1].rep, t, i)
RECURSIVE Ends(_, _, _)
Ends(re, t, i) == IF Len(re) = 0 THEN <<>> ELSE BranchEnds(re[1], t, i) \o Ends(Tail(re), t, i)

\* ==== tokens: the first rule that matches something here, otherwise a single character ====
RECURSIVE TokenAt(_, _, _)
TokenAt(rules, t, i) ==
    IF Len(rules) = 0 THEN [c |-> "X", e |-> i + 1]
    ELSE LET es == Ends(rules[1].re, t, i)
         IN  IF es # <<>> /\ es[1] > i THEN [c |-> rules[1].c, e |-> es[1]] ELSE TokenAt(Tail(rules), t, i)
RECURSIVE TokensFrom(_, _, _)
TokensFrom(rules, t, i) ==
    IF i >= Len(t) THEN <<>>
    ELSE LET k == TokenAt(rules, t, i) IN <<[c |-> k.c, b |-> i, e |-> k.e]>> \o TokensFrom(rules, t, k.e)
Tokens(rules, t) == TokensFrom(rules, t, 0)

\* ==== segments: a rule is [brk, bef, aft] ====
RuleBreak(r, t, s) ==              \* the place at which the rule applies when it matches from s on; -1 for none
    LET es == Ends(r.bef, t, s)
        ok == {k \in DOMAIN es : Ends(r.aft, t, es[k]) # <<>>}
    IN  IF ok = {} THEN -1 ELSE es[CHOOSE k \in ok : \A j \in ok : k <= j]
BreakSeq(r, t) == [s \in 1..Len(t) |-> RuleBreak(r, t, s - 1)]
Applies(r, t) == ToSet(BreakSeq(r, t)) \ {-1, 0}
MonotoneSeq(q) == LET d == SelectSeq(q, LAMBDA x : x # -1) IN \A i \in 1..(Len(d) - 1) : d[i] <= d[i + 1]
MonotoneRules(rules, t) == \A i \in DOMAIN rules : MonotoneSeq(BreakSeq(rules[i], t))
Breaks(rules, t) ==
    LET A == [i \in DOMAIN rules |-> Applies(rules[i], t)]
    IN  {q \in 1..(Len(t) - 1) :
            \E i \in DOMAIN rules :
               /\ rules[i].brk /\ q \in A[i]
               /\ \A j \in 1..(i - 1) : rules[j].brk \/ q \notin A[j]}
\* a match that spans an earlier break may count or not: what it breaks is prescribed where there is none
NoneSpans(rules, t) ==
    LET B == Breaks(rules, t)
    IN  \A i \in DOMAIN rules : LET q == BreakSeq(rules[i], t) IN
           \A s \in DOMAIN q : q[s] = -1 \/ ~ \E b \in B : s - 1 < b /\ b < q[s]
Decided(rules, t) == MonotoneRules(rules, t) /\ NoneSpans(rules, t)
RECURSIVE Between(_, _, _, _)
Between(cuts, n, i, j) ==
    IF j > n THEN <<>>
    ELSE IF j = n \/ j \in cuts THEN <<[c |-> "sen", b |-> i, e |-> j]>> \o Between(cuts, n, j, j + 1)
         ELSE Between(cuts, n, i, j + 1)
Segments(rules, t) == IF Len(t) = 0 THEN <<>> ELSE Between(Breaks(rules, t), Len(t), 0, 1)

\* ==== limits: pieces that are too long are cut at spaces (soft limit) or at the last character that fits (hard) ====
SoftCut(t, s, e, soft) ==
    LET P == {p \in s..(e - 1) : BytesTo(t, p) >= BytesTo(t, s) + soft /\ t[p + 1] = " "}
    IN  IF P = {} THEN e ELSE CHOOSE p \in P : \A q \in P : p <= q
HardCut(t, s, e, hard) ==
    LET P == {p \in s..e : BytesTo(t, p) <= BytesTo(t, s) + hard}
    IN  CHOOSE p \in P : \A q \in P : p >= q
NextCut(t, s, e, hard, soft) ==
    LET len == BytesTo(t, e) - BytesTo(t, s)
        x == IF soft # 0 /\ len >= soft THEN SoftCut(t, s, e, soft) ELSE e
        y == IF hard # 0 /\ len >= hard THEN HardCut(t, s, e, hard) ELSE e
    IN  IF x < y THEN x ELSE y
RECURSIVE Fragments(_, _, _, _, _)
Fragments(t, s, e, hard, soft) ==  \* ends of the fragments; a last end -1 says that a character does not fit
    IF s >= e THEN <<>>
    ELSE LET p == NextCut(t, s, e, hard, soft) IN IF p = s THEN <<-1>> ELSE <<p>> \o Fragments(t, p, e, hard, soft)
RECURSIVE Limited(_, _, _, _)
Limited(ps, t, hard, soft) ==
    IF Len(ps) = 0 THEN <<>>
    ELSE LET p == ps[1]
             es == Fragments(t, p.b, p.e, hard, soft)
             bs == <<p.b>> \o es
         IN  IF Last(es) = -1 THEN <<[c |-> "!", b |-> p.b, e |-> p.b]>>
             ELSE [i \in DOMAIN es |-> [c |-> p.c, b |-> bs[i], e |-> es[i]]] \o Limited(Tail(ps), t, hard, soft)
Fails(ps) == Len(ps) > 0 /\ Last(ps).c = "!"

Pieces(kind, rules, t, hard, soft) ==
    Limited(IF kind = "tok" THEN Tokens(rules, t) ELSE Segments(rules, t), t, hard, soft)

\* ==== what is guaranteed of the pieces whatever the rules ====
Tiles(ps, t) ==
    /\ Len(t) > 0 => Len(ps) > 0 /\ ps[1].b = 0 /\ Last(ps).e = Len(t)
    /\ \A i \in DOMAIN ps : ps[i].b < ps[i].e /\ (i < Len(ps) => ps[i].e = ps[i + 1].b)
WithinLimits(ps, t, hard, soft) ==
    \A i \in DOMAIN ps :
       /\ hard # 0 => BytesTo(t, ps[i].e) - BytesTo(t, ps[i].b) <= hard
       /\ soft # 0 => \A p \in ps[i].b..(ps[i].e - 1) :
                         BytesTo(t, p) >= BytesTo(t, ps[i].b) + soft => t[p + 1] # " "

\* ==== rule files ====
\* elements: [k |-> "rule", name, c, re], [k |-> "def", name, re], [k |-> "ifdef"/"ifndef", name],
\* [k |-> "else"], [k |-> "endif"], [k |-> "include", name]; an item may be [ref |-> name] instead.
IsRef(it) == "ref" \in DOMAIN it
Chars(name) == CASE name = "QA" -> <<"Q", "A">> [] name = "QB" -> <<"Q", "B">> [] name = "QAB" -> <<"Q", "A", "B">>
                 [] name = "QC" -> <<"Q", "C">>
Literal(cs) == [i \in DOMAIN cs |-> [cls |-> <<cs[i]>>, neg |-> FALSE, rep |-> "1"]]
Defined(defs, n) == \E i \in DOMAIN defs : defs[i].name = n
DefOf(defs, n) == defs[CHOOSE i \in DOMAIN defs : defs[i].name = n /\ \A j \in 1..(i - 1) : defs[j].name # n]
Bad == [cls |-> <<>>, neg |-> FALSE, rep |-> "!"]
RECURSIVE Expand(_, _, _)
Expand(defs, b, fuel) ==
    IF Len(b) = 0 THEN <<>>
    ELSE (IF ~ IsRef(b[1]) THEN <<b[1]>>
          ELSE IF fuel = 0 THEN <<Bad>>
          ELSE IF Defined(defs, b[1].ref) THEN Expand(defs, DefOf(defs, b[1].ref).re, fuel - 1)
          \* the longest name of a definition that the text begins with counts
          ELSE IF b[1].ref = "QAB" /\ Defined(defs, "QA")
               THEN Expand(defs, DefOf(defs, "QA").re, fuel - 1) \o Literal(<<"B">>)
          ELSE Literal(Chars(b[1].ref))) \o Expand(defs, Tail(b), fuel)
HasBad(b) == \E i \in DOMAIN b : b[i].rep = "!"
AllOn(st) == \A i \in DOMAIN st : st[i]
RECURSIVE Load(_, _, _, _)
Load(files, els, st, acc) ==       \* acc = [defs, rules, bad]; st: which of the open conditionals hold
    IF Len(els) = 0 THEN (IF Len(st) > 0 THEN [acc EXCEPT !.bad = TRUE] ELSE acc)
    ELSE LET x == els[1] more == Tail(els) IN
      CASE x.k = "rule" ->
             LET res == [i \in DOMAIN x.re |-> Expand(acc.defs, x.re[i], 6)]
                 bad == \E i \in DOMAIN res : HasBad(res[i])
             IN  Load(files, more, st,
                      [acc EXCEPT !.bad = @ \/ bad,
                                  !.rules = IF AllOn(st) THEN Append(@, [c |-> x.c, re |-> res]) ELSE @])
        [] x.k = "def" ->
             Load(files, more, st,
                  [acc EXCEPT !.defs = IF AllOn(st) THEN Append(@, [name |-> x.name, re |-> x.re]) ELSE @])
        [] x.k = "ifdef" -> Load(files, more, Append(st, Defined(acc.defs, x.name)), acc)
        [] x.k = "ifndef" -> Load(files, more, Append(st, ~ Defined(acc.defs, x.name)), acc)
        [] x.k = "else" -> Load(files, more, [st EXCEPT ![Len(st)] = ~ @], acc)
        [] x.k = "endif" -> Load(files, more, SubSeq(st, 1, Len(st) - 1), acc)
        [] x.k = "include" ->
             Load(files, more, st,
                  IF AllOn(st) THEN Load(files, files[CHOOSE i \in DOMAIN files : files[i].name = x.name].els, <<>>, acc)
                  ELSE acc)
LoadRules(files, els) ==
    LET a == Load(files, els, <<>>, [defs |-> <<>>, rules |-> <<>>, bad |-> FALSE])
    IN  [bad |-> a.bad, rules |-> Reverse(a.rules)]

\* ==== SRX rule lists: maps [p: rule name, langs it stands for], groups [name, rules] ====
SelectedNames(maps, lang, cascade) ==
    LET H == {i \in DOMAIN maps : lang \in ToSet(maps[i].langs)}
    IN  IF H = {} THEN {}
        ELSE IF cascade THEN {maps[i].name : i \in H}
        ELSE {maps[CHOOSE i \in H : \A j \in H : i <= j].name}
SrxRules(maps, groups, lang, cascade) ==
    LET N == SelectedNames(maps, lang, cascade)
    IN  FlattenSeq([i \in DOMAIN groups |-> IF groups[i].name \in N THEN groups[i].rules ELSE <<>>])
=============================================================================
