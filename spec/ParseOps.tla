----------------------------- MODULE ParseOps -----------------------------
(* What the chart parser derives from the edges given to it.

   An item is an annotation over a part of the text as the parser sees it: [s, t, c, a] with a category and a set of
   attribute-value pairs.  A rule  left = elements  (with a condition) combines neighbouring items, blanks between them
   set aside, into an item over the text they span; what is derived is the least set closed under the rules - whatever
   the order in which the items are taken.  Long rules may be handled in steps, elements may be optional or alternative:
   the outcome is that of the rules written out. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

\* ==== blanks: a point followed (preceded) by a blank is as good as the point after (before) it
RECURSIVE After(_, _)
After(blanks, v) == IF \E b \in blanks : b[1] = v THEN After(blanks, (CHOOSE b \in blanks : b[1] = v)[2]) ELSE v
Next2(blanks, x, y) == x.t = y.s \/ After(blanks, x.t) = y.s

\* ==== rules written out: sequences of symbols [c, id], id = its place among the elements of the rule (alternatives begin
\* at the same place, and what follows comes after the longest of them)
\* an element: [k |-> "s", c, op, id] or [k |-> "g", op, alts], alts a sequence of sequences of elements
RECURSIVE Written(_), WrittenEl(_)
WrittenEl(el) ==
    (IF el.op THEN {<<>>} ELSE {}) \cup
    (IF el.k = "s" THEN {<<[c |-> el.c, id |-> el.id]>>}
     ELSE UNION {Written(el.alts[i]) : i \in DOMAIN el.alts})
Written(els) ==
    IF els = <<>> THEN {<<>>}
    ELSE {x \o y : x \in WrittenEl(els[1]), y \in Written(Tail(els))}

\* ==== conditions.  "" = no value (false); true is "1"
True == "1"
Val(as, k) == IF \E p \in as : p[1] = k THEN (CHOOSE p \in as : p[1] = k)[2] ELSE ""
Put(as, k, v) == {p \in as : p[1] # k} \cup (IF v = "" THEN {} ELSE {<<k, v>>})

\* the attribute of the symbol at the given place; no such symbol: no value
SymVal(form, kids, id, k) ==
    IF \E i \in DOMAIN form : form[i].id = id THEN Val(kids[CHOOSE i \in DOMAIN form : form[i].id = id].a, k) ELSE ""
RECURSIVE Eval(_, _, _, _)
\* state: [v, a, w] = value, attributes of the left-hand side so far, score
Eval(x, form, kids, st) ==
    LET L == Eval(x.x, form, kids, st)
        R == Eval(x.y, form, kids, L)
        B(s, cond, v) == [s EXCEPT !.v = IF cond THEN v ELSE ""]
    IN  CASE x.k = "str" -> [st EXCEPT !.v = x.v]
          [] x.k = "ref" -> [st EXCEPT !.v = SymVal(form, kids, x.id, x.a)]
          [] x.k = "lhs" -> [st EXCEPT !.v = Val(st.a, x.a)]
          [] x.k = "eq" -> B(R, L.v = R.v, True)
          [] x.k = "ne" -> B(R, L.v # R.v, True)
          [] x.k = "ueq" -> B(R, L.v = R.v, R.v)
          [] x.k = "as" -> LET r == Eval(x.y, form, kids, st) IN [r EXCEPT !.a = Put(r.a, x.a, r.v)]
          [] x.k = "uas" -> LET r == Eval(x.y, form, kids, st) IN B(r, Val(r.a, x.a) = r.v, r.v)
          [] x.k = "and" -> IF L.v = "" THEN L ELSE R
          [] x.k = "or" -> IF L.v # "" THEN L ELSE R
          [] x.k = "imp" -> IF L.v = "" THEN [L EXCEPT !.v = True] ELSE R
          [] x.k = "opt" -> [L EXCEPT !.v = True]
          [] x.k = "score" -> [st EXCEPT !.w = x.w, !.v = True]
          [] x.k = "none" -> [st EXCEPT !.v = True]

\* ==== one rule applied to a sequence of items
\* the attributes of the starred symbol are taken over
HeadAttrs(rule, form, kids) ==
    IF \E i \in DOMAIN form : form[i].id = rule.star THEN kids[CHOOSE i \in DOMAIN form : form[i].id = rule.star].a ELSE {}
Outcome(rule, form, kids) ==
    LET r == Eval(rule.cond, form, kids, [v |-> True, a |-> HeadAttrs(rule, form, kids), w |-> rule.w])
    IN  [ok |-> r.v # "", w |-> r.w,
         item |-> [s |-> kids[1].s, t |-> kids[Len(kids)].t, c |-> rule.l, a |-> r.a]]

\* all sequences of neighbouring items that spell the form
RECURSIVE Spelled(_, _, _)
Spelled(I, blanks, form) ==
    IF Len(form) = 1 THEN {<<i>> : i \in {j \in I : j.c = form[1].c}}
    ELSE LET P == Spelled(I, blanks, Front(form))
             C == {j \in I : j.c = form[Len(form)].c}
         IN  UNION {{Append(p, j) : j \in {k \in C : Next2(blanks, p[Len(p)], k)}} : p \in P}
\* rule uses: [r |-> index of the rule, kids, w, item]
Forms(rule) == Written(rule.e) \ {<<>>}
Uses(rules, I, blanks) ==
    UNION {UNION {{[r |-> i, kids |-> k, o |-> Outcome(rules[i], f, k)] : k \in Spelled(I, blanks, f)} : f \in Forms(rules[i])}
           : i \in DOMAIN rules}
Good(uses) == {u \in uses : u.o.ok}
Derived(rules, I, blanks) == {u.o.item : u \in Good(Uses(rules, I, blanks))}
RECURSIVE Closure(_, _, _)
Closure(rules, I, blanks) ==
    LET J == I \cup Derived(rules, I, blanks) IN IF J = I THEN I ELSE Closure(rules, J, blanks)

\* ==== limits: the limit given for the smallest length not below the one asked about (the first of several), or the absolute one
AllowedBy(specs, abs, len, n) ==
    LET S == {i \in DOMAIN specs : specs[i].n >= len}
        m == CHOOSE i \in S : \A j \in S : specs[j].n > specs[i].n \/ (specs[j].n = specs[i].n /\ j >= i)
        lim == IF S = {} THEN abs ELSE specs[m].l
    IN  lim < 0 \/ n <= lim        \* a negative number: no limit
=============================================================================
