------------------------------ MODULE FsaModel ------------------------------
(* The constructions of FsaOps against the definitions of the language operations, for all small
   automata and all words up to MaxLen. *)
EXTENDS FsaOps
CONSTANTS Sig, MaxLen, MaxArcs1, MaxArcs2
VARIABLES A, B, binary
vars == <<A, B, binary>>
Q == {0, 1}
Arcs(k) == UNION { kSubset(i, Q \X (Sig \cup {Eps}) \X Q) : i \in 0..k }
Automata(k) == { [q |-> Q, s |-> s, f |-> f, d |-> d] : s \in SUBSET Q, f \in SUBSET Q, d \in Arcs(k) }
Words == UNION { [1..n -> Sig] : n \in 0..MaxLen }
Init == \/ binary = FALSE /\ A \in Automata(MaxArcs1) /\ B = Empty
        \/ binary = TRUE /\ A \in Automata(MaxArcs2) /\ B = Empty
Next == binary /\ B = Empty /\ B' \in Automata(MaxArcs2) /\ UNCHANGED <<A, binary>>
Spec == Init /\ [][Next]_vars
Cut(w, i) == <<SubSeq(w, 1, i), SubSeq(w, i + 1, Len(w))>>
RECURSIVE InPlus(_, _)
InPlus(X, w) == Accepts(X, w) \/ \E i \in 1..(Len(w) - 1) : Accepts(X, SubSeq(w, 1, i)) /\ InPlus(X, SubSeq(w, i + 1, Len(w)))
Unary == binary = FALSE => \A w \in Words :
    /\ Accepts(Opt(A), w) = (w = <<>> \/ Accepts(A, w))
    /\ Accepts(Plus(A), w) = InPlus(A, w)
    /\ Accepts(Star(A), w) = (w = <<>> \/ InPlus(A, w))
    /\ Accepts(Rev(A), w) = Accepts(A, [i \in DOMAIN w |-> w[Len(w) + 1 - i]])
Binary == binary => \A w \in Words :
    /\ Accepts(Union2(A, B), w) = (Accepts(A, w) \/ Accepts(B, w))
    /\ Accepts(Both(A, B, FALSE), w) = (Accepts(A, w) /\ Accepts(B, w))
    /\ Accepts(Concat(A, B), w) = \E i \in 0..Len(w) : Accepts(A, Cut(w, i)[1]) /\ Accepts(B, Cut(w, i)[2])
\* two automata with two states that differ do so on a word shorter than four subsets times four subsets; here: sound
Same == binary => (SameLanguage(A, B) => \A w \in Words : Accepts(A, w) = Accepts(B, w))
Differ == binary => (SameLanguage(A, B) \/ \E w \in UNION { [1..n -> Sig] : n \in 0..4 } : Accepts(A, w) # Accepts(B, w))
Finite == LET ws == { w \in Words : Accepts(A, w) } IN \A w \in Words : Accepts(OfWords(ws), w) = (w \in ws)
=============================================================================
