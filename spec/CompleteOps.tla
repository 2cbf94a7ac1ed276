---------------------------- MODULE CompleteOps ----------------------------
(* Completing a pipeline.

   A registry maps processor names to records
     [ann |-> is it an annotator, req |-> sequence of requirements (each a set of tags to be provided by
      one preceding processor), prov |-> set of tags, h |-> "indep" / "one" / "dep" / "guess"
      (how languages are handled), langs |-> sequence of language codes, q, t |-> quality and time,
      fails |-> "" or how creating it fails].
   A promise is [n |-> name, l |-> language set or "", added |-> was it added by completion].
   A request is a sequence of alternatives (non-empty sets of promises). *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

P(n, l, a) == [n |-> n, l |-> l, added |-> a]
Handling(reg, p) == IF reg[p.n].h = "dep" /\ p.l # "" THEN "one" ELSE reg[p.n].h
Handled(reg, p) == IF reg[p.n].h = "dep" /\ p.l # "" THEN <<p.l>>
                   ELSE IF reg[p.n].h \in {"one", "dep"} THEN reg[p.n].langs ELSE <<>>
TheLang(reg, p) == IF Handling(reg, p) = "one" THEN Handled(reg, p)[1] ELSE ""

\* an alternative that has to be multiplied by the languages
Multi(reg, alt) == \/ \E p \in alt : Handling(reg, p) = "dep"
                   \/ \E p, q \in alt : Handling(reg, p) = "one" /\ Handling(reg, q) = "one" /\ TheLang(reg, p) # TheLang(reg, q)
For(reg, p, lang) == IF Handling(reg, p) = "dep" THEN [p EXCEPT !.l = lang] ELSE p
Filter(reg, alt, lang) ==
    { For(reg, p, lang) : p \in { x \in alt : Handling(reg, x) \in {"indep", "guess"} \/ lang \in Range(Handled(reg, x)) } }

\* what may be added in front of a processor of language lang, to provide req
Default(reg, n, lang) == P(n, IF reg[n].h = "dep" THEN lang ELSE "", TRUE)
Fits(reg, n, req, lang) ==
    /\ reg[n].ann
    /\ req \subseteq reg[n].prov
    /\ \A r \in Range(reg[n].req) : ~(req \subseteq r)          \* it does not need the same itself
    /\ CASE reg[n].h \in {"indep", "guess"} -> TRUE
         [] reg[n].h = "one" -> lang = "" \/ lang = reg[n].langs[1]
         [] reg[n].h = "dep" -> lang # "" /\ lang \in Range(reg[n].langs)
\* processors already added for what is still open: adding one of them again would go in a circle
Chain(seq, k) == { p.n : p \in { x \in UNION { seq[j] : j \in k..Len(seq) } : x.added } }
Fulfillers(reg, req, lang, chain) == { Default(reg, n, lang) : n \in { m \in DOMAIN reg : m \notin chain /\ Fits(reg, m, req, lang) } }

The(s) == CHOOSE p \in s : TRUE
Unmet(reg, seq, k) ==
    SelectSeq(reg[The(seq[k]).n].req, LAMBDA r : ~ \E j \in 1..(k-1) : r \subseteq reg[The(seq[j]).n].prov)
Put(seq, k, new) == SubSeq(seq, 1, k - 1) \o new \o SubSeq(seq, k + 1, Len(seq))

(* One step of completion at position k: the set of results, each <<sequence, position>>; everything
   before position k is settled (one promise, requirements met). *)
StepFrom(reg, langs, circles, seq, k) ==
    LET alt == seq[k] IN
    IF Multi(reg, alt)
    THEN IF \E i \in DOMAIN langs : Filter(reg, alt, langs[i]) = {} THEN {}
         ELSE { <<Put(seq, k, [i \in DOMAIN langs |-> Filter(reg, alt, langs[i])]), k>> }
    ELSE IF Cardinality(alt) > 1 THEN { <<Put(seq, k, << {p} >>), k>> : p \in alt }
    ELSE LET u == Unmet(reg, seq, k) IN
         IF u = <<>> THEN { <<seq, k + 1>> }
         ELSE LET f == Fulfillers(reg, u[1], TheLang(reg, The(alt)), IF circles THEN {} ELSE Chain(seq, k)) IN
              IF f = {} THEN {} ELSE { <<Put(seq, k, << f, alt >>), k>> }

RECURSIVE Comp(_, _, _, _)
Comp(reg, langs, seq, k) ==
    IF k > Len(seq) THEN { [i \in DOMAIN seq |-> The(seq[i])] }
    ELSE UNION { Comp(reg, langs, x[1], x[2]) : x \in StepFrom(reg, langs, FALSE, seq, k) }
Completions(reg, langs, request) == Comp(reg, langs, request, 1)

\* ---- which of them is returned
IndexOf(x, s) == IF x \in Range(s) THEN CHOOSE i \in DOMAIN s : s[i] = x ELSE 0
Quality(reg, s) == FoldSeq(LAMBDA p, a : a + reg[p.n].q + (IF p.l = "" THEN 0 ELSE IndexOf(p.l, reg[p.n].langs)), 0, s)
Time(reg, s) == FoldSeq(LAMBDA p, a : a + reg[p.n].t, 0, s)
Better(reg, a, b) == \/ Quality(reg, a) > Quality(reg, b)
                     \/ Quality(reg, a) = Quality(reg, b) /\ Time(reg, a) < Time(reg, b)
Best(reg, ss) == { a \in ss : \A b \in ss : ~Better(reg, b, a) }
Runs(reg, s) == \A i \in DOMAIN s : reg[s[i].n].fails = ""
FirstFailing(reg, s) == s[Min({ i \in DOMAIN s : reg[s[i].n].fails # "" })].n
Plain(s) == [i \in DOMAIN s |-> [n |-> s[i].n, l |-> s[i].l]]

\* ---- what every completion has to satisfy, said without reference to how it is found
Met(reg, s) == \A i \in DOMAIN s : \A r \in Range(reg[s[i].n].req) : \E j \in 1..(i-1) : r \subseteq reg[s[j].n].prov
Kept(s, request) ==       \* for requests that are not multiplied by languages
    LET o == SelectSeq(s, LAMBDA p : ~p.added) IN Len(o) = Len(request) /\ \A i \in DOMAIN o : o[i] \in request[i]
Needed(reg, s) == \A i \in DOMAIN s : s[i].added =>
    \E j \in (i+1)..Len(s) : \E r \in Range(reg[s[j].n].req) :
        r \subseteq reg[s[i].n].prov
\* processors that can be made to run, given that those in have run before (languages left aside)
RECURSIVE Avail(_, _)
Avail(reg, have) ==
    LET more == have \cup { n \in DOMAIN reg : reg[n].ann /\ \A r \in Range(reg[n].req) : \E h \in have : r \subseteq reg[h].prov }
    IN  IF more = have THEN have ELSE Avail(reg, more)
RECURSIVE Completable(_, _, _)
Completable(reg, request, before) ==
    request = <<>> \/
    \E p \in request[1] :
        /\ \A r \in Range(reg[p.n].req) : \E h \in Avail(reg, before) : r \subseteq reg[h].prov
        /\ Completable(reg, Tail(request), before \cup {p.n})
=============================================================================
