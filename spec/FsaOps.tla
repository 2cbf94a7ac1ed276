------------------------------- MODULE FsaOps -------------------------------
(* Finite automata: [s |-> start states, f |-> end states, d |-> set of moves <<state, symbol, state>>,
   q |-> all states].  Symbols are numbers; Eps is the empty move, Wild the symbol that may stand for
   any other in an intersection that allows it. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Eps == 255
Wild == 254
RECURSIVE Clo(_, _)
Clo(A, S) == LET t == S \cup { m[3] : m \in { x \in A.d : x[1] \in S /\ x[2] = Eps } }
             IN  IF t = S THEN S ELSE Clo(A, t)
Start(A) == Clo(A, A.s)
Move(A, S, a) == Clo(A, { m[3] : m \in { x \in A.d : x[1] \in S /\ x[2] = a } })
Acc(A, S) == S \cap A.f # {}
Symbols(A) == { m[2] : m \in A.d } \ {Eps}
RECURSIVE Run(_, _, _)
Run(A, S, w) == IF w = <<>> THEN Acc(A, S) ELSE Run(A, Move(A, S, Head(w)), Tail(w))
Accepts(A, w) == Run(A, Start(A), w)

\* do A and B accept the same words
RECURSIVE Agree(_, _, _, _, _)
Agree(A, B, sig, seen, todo) ==
    IF todo = {} THEN TRUE
    ELSE IF \E p \in todo : Acc(A, p[1]) # Acc(B, p[2]) THEN FALSE
    ELSE LET next == { <<Move(A, p[1], a), Move(B, p[2], a)>> : <<p, a>> \in todo \X sig }
             seen2 == seen \cup todo
         IN  Agree(A, B, sig, seen2, next \ seen2)
SameLanguage(A, B) == Agree(A, B, Symbols(A) \cup Symbols(B), {}, {<<Start(A), Start(B)>>})

\* ---- the operations, on fresh states
Tag(A, k) == [q |-> { <<k, x>> : x \in A.q }, s |-> { <<k, x>> : x \in A.s }, f |-> { <<k, x>> : x \in A.f },
              d |-> { << <<k, m[1]>>, m[2], <<k, m[3]>> >> : m \in A.d }]
Empty == [q |-> {}, s |-> {}, f |-> {}, d |-> {}]
Word(w) == [q |-> 0..Len(w), s |-> {0}, f |-> {Len(w)}, d |-> { <<i - 1, w[i], i>> : i \in 1..Len(w) }]
Union2(A0, B0) == LET A == Tag(A0, 1) B == Tag(B0, 2) IN
    [q |-> A.q \cup B.q, s |-> A.s \cup B.s, f |-> A.f \cup B.f, d |-> A.d \cup B.d]
Concat(A0, B0) == LET A == Tag(A0, 1) B == Tag(B0, 2) IN
    [q |-> A.q \cup B.q, s |-> A.s, f |-> B.f, d |-> A.d \cup B.d \cup { <<p, Eps, r>> : <<p, r>> \in A.f \X B.s }]
Opt(A) == Union2(A, Word(<<>>))
Plus(A) == [A EXCEPT !.d = @ \cup { <<p, Eps, r>> : <<p, r>> \in A.f \X A.s }]
Star(A) == Opt(Plus(A))
Rev(A) == [A EXCEPT !.s = A.f, !.f = A.s, !.d = { <<m[3], m[2], m[1]>> : m \in A.d }]
Both(A, B, wild) ==
    LET m1 == { x \in A.d : x[2] # Eps }  m2 == { x \in B.d : x[2] # Eps } IN
    [q |-> A.q \X B.q, s |-> A.s \X B.s, f |-> A.f \X B.f,
     d |-> { << <<x[1], y[1]>>, x[2], <<x[3], y[3]>> >> : <<x, y>> \in { p \in m1 \X m2 : p[1][2] = p[2][2] } }
        \cup (IF wild THEN { << <<x[1], y[1]>>, y[2], <<x[3], y[3]>> >> : <<x, y>> \in { p \in m1 \X m2 : p[1][2] = Wild } }
                       \cup { << <<x[1], y[1]>>, x[2], <<x[3], y[3]>> >> : <<x, y>> \in { p \in m1 \X m2 : p[2][2] = Wild } }
              ELSE {})
        \cup { << <<x[1], r>>, Eps, <<x[3], r>> >> : <<x, r>> \in (A.d \ m1) \X B.q }
        \cup { << <<r, y[1]>>, Eps, <<r, y[3]>> >> : <<r, y>> \in A.q \X (B.d \ m2) }]
OfWords(ws) == [q |-> UNION { { SubSeq(w, 1, i) : i \in 0..Len(w) } : w \in ws } \cup {<<>>}, s |-> {<<>>}, f |-> ws,
                d |-> UNION { { <<SubSeq(w, 1, i - 1), w[i], SubSeq(w, 1, i)>> : i \in 1..Len(w) } : w \in ws }]

\* ---- shapes
NoEps(A) == \A m \in A.d : m[2] # Eps
Deterministic(A) == /\ NoEps(A) /\ Cardinality(A.s) <= 1
                    /\ \A m, o \in A.d : m[1] = o[1] /\ m[2] = o[2] => m[3] = o[3]
RECURSIVE Reach(_, _)
Reach(A, S) == LET t == S \cup { m[3] : m \in { x \in A.d : x[1] \in S } } IN IF t = S THEN S ELSE Reach(A, t)
AllReachable(A) == Reach(A, A.s) = A.q
AllProductive(A) == Reach(Rev(A), A.f) = A.q
\* Moore: the coarsest partition of the states of a deterministic automaton, as a function to class names
Succ(A, p, a) == LET t == { m[3] : m \in { x \in A.d : x[1] = p /\ x[2] = a } } IN IF t = {} THEN {} ELSE {CHOOSE x \in t : TRUE}
RECURSIVE Refine(_, _)
Refine(A, c) == \* c: state -> class (a set of states)
    LET sig == Symbols(A)
        key == [p \in A.q |-> <<c[p], [a \in sig |-> { c[x] : x \in Succ(A, p, a) }]>>]
        new == [p \in A.q |-> { r \in A.q : key[r] = key[p] }]
    IN  IF new = c THEN c ELSE Refine(A, new)
Classes(A) == LET c == Refine(A, [p \in A.q |-> { r \in A.q : (r \in A.f) = (p \in A.f) }]) IN { c[p] : p \in A.q }
\* minimal among the deterministic automata for the language
Minimal(A) == /\ Deterministic(A) /\ AllReachable(A)
              /\ Cardinality(A.q) <= 1 \/ AllProductive(A)
              /\ Cardinality(Classes(A)) = Cardinality(A.q)
\* words up to a length, each path once
RECURSIVE Paths(_, _, _, _)
Paths(A, p, w, k) ==      \* bag (as a sequence of words) is not needed: deterministic automata have one path per word
    (IF p \in A.f THEN {w} ELSE {}) \cup
    (IF k = 0 THEN {} ELSE UNION { Paths(A, m[3], Append(w, m[2]), k - 1) : m \in { x \in A.d : x[1] = p } })
WordsUpTo(A, k) == UNION { Paths(A, p, <<>>, k) : p \in A.s }
=============================================================================
