------------------------------ MODULE LexOps ------------------------------
(* Lexica: what a plain-text lexicon means, what a compiled one answers, and what the annotators built on
   lexica (the bilingual lexicon, the mapper) add to a document.

   A lexicon is a function from keys to values; a value is the text of its records.  Texts are strings. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Char(s, i) == SubSeq(s, i, i)
Chars(s) == [i \in 1..Len(s) |-> Char(s, i)]
\* the parts of s between characters of seps; empty ones are kept
SplitAt(s, seps) ==
    FoldLeft(LAMBDA acc, c : IF c \in seps THEN Append(acc, "") ELSE [acc EXCEPT ![Len(acc)] = @ \o c],
             << "" >>, Chars(s))
JoinWith(ss, sep) == IF ss = <<>> THEN ""
                     ELSE FoldLeft(LAMBDA acc, x : acc \o sep \o x, ss[1], Tail(ss))

\* ==== the plain-text format
Field == {" ", "\t"}
Uncommented(s) == SplitAt(s, {"#"})[1]
Fields(s) == SelectSeq(SplitAt(Uncommented(s), Field), LAMBDA f : f # "")
\* [ok, s]: "_" stands for a blank; \n \t \r \_ \* and \\ for the character named
Plainly(f) ==
    LET step(a, c) ==
            IF ~a.ok THEN a
            ELSE IF a.esc THEN CASE c = "n" -> [a EXCEPT !.esc = FALSE, !.s = @ \o "\n"]
                                 [] c = "t" -> [a EXCEPT !.esc = FALSE, !.s = @ \o "\t"]
                                 [] c = "r" -> [a EXCEPT !.esc = FALSE, !.s = @ \o "\r"]
                                 [] c \in {"_", "*", "\\"} -> [a EXCEPT !.esc = FALSE, !.s = @ \o c]
                                 [] OTHER -> [a EXCEPT !.ok = FALSE]
            ELSE IF c = "\\" THEN [a EXCEPT !.esc = TRUE]
            ELSE [a EXCEPT !.s = @ \o (IF c = "_" THEN " " ELSE c)]
        x == FoldLeft(step, [ok |-> TRUE, esc |-> FALSE, s |-> ""], Chars(f))
    IN  [ok |-> x.ok /\ ~x.esc, s |-> x.s]

\* [k |-> "none" / "bad" / "entry", key, rec]
LineOf(s) ==
    LET fs == Fields(s)
        us == [i \in DOMAIN fs |-> Plainly(fs[i])]
    IN  IF fs = <<>> THEN [k |-> "none"]
        ELSE IF Len(fs) < 2 \/ \E i \in DOMAIN us : ~us[i].ok THEN [k |-> "bad"]
        ELSE [k |-> "entry", key |-> us[1].s, rec |-> JoinWith([i \in 1..(Len(us) - 1) |-> us[i + 1].s], "\t")]
\* [ok, lex]
EmptyLex == [k \in {} |-> ""]
ReadText(lines) ==
    LET es == [i \in DOMAIN lines |-> LineOf(lines[i])]
        ks == { es[i].key : i \in { j \in DOMAIN es : es[j].k = "entry" } }
        recs(k) == LET of == SelectSeq(es, LAMBDA e : e.k = "entry" /\ e.key = k) IN [i \in DOMAIN of |-> of[i].rec]
    IN  IF \E i \in DOMAIN es : es[i].k = "bad" THEN [ok |-> FALSE, lex |-> EmptyLex]
        ELSE [ok |-> TRUE, lex |-> [k \in ks |-> JoinWith(recs(k), ";")]]

\* ==== answers
Found(lex, k) == k \in DOMAIN lex
Records(lex, k) == IF Found(lex, k) THEN SplitAt(lex[k], {";"}) ELSE <<>>
\* what the entries (pairs, with keys all different) say
FromPairs(es) == [k \in { es[i][1] : i \in DOMAIN es } |-> es[CHOOSE i \in DOMAIN es : es[i][1] = k][2]]

\* ==== a vector of texts, a vector of numbers
FirstAt(v, x) == CHOOSE i \in DOMAIN v : v[i] = x /\ \A j \in 1..(i - 1) : v[j] # x
=============================================================================
