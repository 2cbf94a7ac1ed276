------------------------------ MODULE RunOps ------------------------------
(* What running a pipeline writes.

   A pipeline is [kind, rules, hard, soft, reader, blank, sep]: how the text is read (line after line, or as one
   paragraph), how the paragraphs are cut (not at all, into tokens, into segments; see CutOps) and how the pieces are
   written.  An input is a sequence of lines, a line a sequence of characters.
   Read as one document, all lines share it; run line by line, every line is a document of its own, so that what is
   written for it does not depend on any other line. *)
EXTENDS CutOps

Newline == "\n"
Blanks == { " ", "\t", "\n", "\f", "\r" }
RECURSIVE Str(_)
Str(t) == IF Len(t) = 0 THEN "" ELSE t[1] \o Str(Tail(t))
RECURSIVE Flat(_)
Flat(q) == IF Len(q) = 0 THEN <<>> ELSE q[1] \o Flat(Tail(q))
RECURSIVE Joined(_, _)
Joined(q, sep) == IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Joined(Tail(q), sep)

\* ==== lines of a text: every newline ends one; what follows the last newline is one unless it is empty
RECURSIVE LinesFrom(_, _)
LinesFrom(t, cur) == IF Len(t) = 0 THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                     ELSE IF t[1] = Newline THEN <<cur>> \o LinesFrom(Tail(t), <<>>)
                     ELSE LinesFrom(Tail(t), Append(cur, t[1]))
LinesOf(t) == LinesFrom(t, <<>>)
RECURSIVE TextOfLines(_, _)
TextOfLines(ls, final) == IF Len(ls) = 0 THEN <<>>
    ELSE ls[1] \o (IF Len(ls) > 1 \/ final THEN <<Newline>> ELSE <<>>) \o TextOfLines(Tail(ls), final)

\* ==== one document
Paragraphs(P, ls) ==
    IF P.reader = "whole"
    THEN (IF Len(ls) = 0 THEN <<>> ELSE <<TextOfLines(ls, TRUE)>>)
    ELSE SelectSeq(ls, LAMBDA x : x # <<>>)
PiecesOf(P, t) == IF P.kind = "frag" THEN <<[c |-> "FRAG", b |-> 0, e |-> Len(t)]>> ELSE Pieces(P.kind, P.rules, t, P.hard, P.soft)
Shown(P, t) == LET all == [i \in DOMAIN PiecesOf(P, t) |-> SubSeq(t, PiecesOf(P, t)[i].b + 1, PiecesOf(P, t)[i].e)]
                   kept == SelectSeq(all, LAMBDA x : P.blank \/ ~ ToSet(x) \subseteq Blanks)
               IN  [i \in DOMAIN kept |-> Str(kept[i])]
DocFails(P, ls) == \E k \in DOMAIN Paragraphs(P, ls) : P.kind # "frag" /\ Fails(PiecesOf(P, Paragraphs(P, ls)[k]))
DocOut(P, ls) ==
    IF DocFails(P, ls) THEN [out |-> "", fail |-> TRUE]
    ELSE [out |-> Joined(Flat([k \in DOMAIN Paragraphs(P, ls) |-> Shown(P, Paragraphs(P, ls)[k])]), P.sep) \o "\n", fail |-> FALSE]
DocDecided(P, ls) == P.kind # "srx" \/ \A k \in DOMAIN Paragraphs(P, ls) : Decided(P.rules, Paragraphs(P, ls)[k])

\* ==== line by line: f says what is written for a line on its own; a run goes on until a line fails
RECURSIVE ByLine(_, _)
ByLine(f(_), ls) ==
    IF Len(ls) = 0 THEN [out |-> "", fail |-> FALSE]
    ELSE LET x == f(ls[1])
         IN  IF x.fail THEN x
             ELSE LET y == ByLine(f, Tail(ls)) IN [out |-> x.out \o y.out, fail |-> y.fail]
LineOut(P, l) == DocOut(P, LinesOf(l))
=============================================================================
