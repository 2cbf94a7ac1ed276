------------------------------ MODULE PsiModel ------------------------------
(* A document grows annotation by annotation, with derivations over bare characters, earlier and later
   annotations and an extra point; then it is written row by row - annotations by where they end, ties in any
   order, parts before what they are made into, text nobody covers character by character.  What was written
   must always make sense so far (Sense), and in the end stand for the document (Faithful), whatever was
   chosen.  With Escaped the writer counts the text it has covered as written, not as it is (negative control);
   with Late the parts are written after the text of the whole has been accounted for (negative control).
   With Emit the documents are printed as driver scripts. *)
EXTENDS PsiOps, Json

CONSTANTS MaxOps, Tags, Scores, Sym, Escaped, Late, Emit

\* (TLC garbles other than ASCII letters in states it keeps on disk: Z stands for a two-byte letter)
Text == << <<"_", 1>>, <<"Z", 2>> >>
Esc(c) == IF c[1] = "_" THEN 2 ELSE c[2]
W == PWidth(Text)
Loose == -1
Points == << 0, 1, 3, Loose >>
Order(v) == IF v = Loose THEN 2 ELSE v * 2          \* the extra point lies between 1 and 3
Spans == { sp \in Range(Points) \X Range(Points) : Order(sp[1]) < Order(sp[2]) /\ sp # <<1, Loose>> }
Cats == << "A", "B", "C", "D" >>

VARIABLES E, hist, todo, out, mode
vars == <<E, hist, todo, out, mode>>

Key(e) == <<e.s, e.t, e.c, e.x, e.a, PPlane(e.g)>>
RECURSIVE Below(_, _, _)
Below(EE, i, fuel) ==       \* the annotations i is made of, at any depth
    IF fuel = 0 THEN {} ELSE
    LET d == { k[2] : k \in { x \in UNION { Range(EE[i].p[j].l) : j \in DOMAIN EE[i].p } : x[1] = "e" } }
    IN d \cup UNION { Below(EE, j, fuel - 1) : j \in d }

\* paths from s to t over bare characters (if there are any) and the annotations in the set ok
BareAt(v) == IF ~Sym THEN {} ELSE { <<"b", k[2], k[3]>> : k \in { x \in Range(Chars(Text, 0, W)) : x[2] = v } }
EndOf(EE, k) == IF k[1] = "b" THEN k[3] ELSE EE[k[2]].t
RECURSIVE Paths(_, _, _, _)
Paths(EE, ok, v, t) ==
    IF v = t THEN {<<>>}
    ELSE UNION { { <<k>> \o r : r \in Paths(EE, ok, EndOf(EE, k), t) } :
                 k \in BareAt(v) \cup { <<"e", i>> : i \in { j \in ok : EE[j].s = v } } }
Roles(l) == [i \in DOMAIN l |-> IF l[i][1] = "e" /\ i = 1 THEN "head" ELSE ""]

\* where the annotation with number i, or a bare character, is listed (from 0)
ListIx(EE, k) ==
    LET all == FoldLeft(LAMBDA acc, v : acc \o SetToSeq(BareAt(v)) \o
                                        [n \in DOMAIN SelectSeq([i \in DOMAIN EE |-> i], LAMBDA i : EE[i].s = v) |->
                                            <<"e", SelectSeq([i \in DOMAIN EE |-> i], LAMBDA i : EE[i].s = v)[n]>>],
                        <<>>, Points)
    IN (CHOOSE i \in DOMAIN all : all[i] = k) - 1

Init == /\ E = <<>> /\ todo = {} /\ out = [rows |-> <<>>, cov |-> 0, num |-> <<>>] /\ mode = "grow"
        /\ hist = << [op |-> "reset", text |-> "_Z", sym |-> Sym], [op |-> "loose"] >>
Put1(e, g, w, l) ==
    LET gg == e.g \cup g
    IN [e EXCEPT !.g = gg, !.w = IF w > e.w THEN w ELSE e.w, !.p = Append(e.p, [l |-> l, q |-> Roles(l), g |-> gg, w |-> w])]
Said(e, l, g, w) == [op |-> "radd", s |-> e.s, t |-> e.t, c |-> e.c, x |-> e.x, a |-> e.a, g |-> SetToSeq(g), w |-> w,
                     seq |-> [i \in DOMAIN l |-> ListIx(E, l[i])], roles |-> Roles(l)]
Grow ==
    /\ mode = "grow" /\ Len(hist) < MaxOps + 2
    /\ \E g \in Tags, w \in Scores :
         \/ \E sp \in Spans, a \in {<<>>, << <<"k", "v">> >>} :
              LET e == [s |-> sp[1], t |-> sp[2], c |-> Cats[Len(E) + 1], x |-> "", a |-> a, g |-> g, w |-> w, p |-> <<>>]
              IN \E l \in {<<>>} \cup Paths(E, DOMAIN E, sp[1], sp[2]) :
                   /\ (a # <<>> => (l = <<>> /\ w = 0))
                   /\ E' = Append(E, [e EXCEPT !.p = << [l |-> l, q |-> Roles(l), g |-> g, w |-> w] >>])
                   /\ hist' = Append(hist, Said(e, l, g, w))
         \/ \E i \in DOMAIN E :
              LET ok == { j \in DOMAIN E : j # i /\ i \notin Below(E, j, Len(E)) }
              IN \E l \in {<<>>} \cup Paths(E, ok, E[i].s, E[i].t) :
                   /\ E' = [E EXCEPT ![i] = Put1(E[i], g, w, l)]
                   /\ hist' = Append(hist, Said(E[i], l, g, w))
    /\ UNCHANGED <<todo, out, mode>>
Begin == mode = "grow" /\ mode' = "write" /\ todo' = DOMAIN E
         /\ hist' = Append(hist, [op |-> "psi", header |-> FALSE]) /\ UNCHANGED <<E, out>>

\* ==== writing

TextRow(o, v) ==
    LET i == PIx(Text, v)
        c == Text[i]
        n == Len(o.rows) + 1
    IN [rows |-> Append(o.rows, [n |-> n, s |-> v, t |-> v + c[2], text |-> <<c>>, g |-> IF Sym THEN <<"symbol">> ELSE <<Nothing>>,
                                 x |-> IF Sym THEN c[1] ELSE "", c |-> IF Sym THEN "'" \o c[1] ELSE Nothing, a |-> <<>>, w |-> 0,
                                 dflt |-> TRUE, p |-> <<>>]),
        cov |-> o.cov + (IF Escaped THEN Esc(c) ELSE c[2]),
        num |-> IF Sym THEN Put(o.num, <<"b", v, v + c[2]>>, n) ELSE o.num]
RECURSIVE Uncovered(_, _)
Uncovered(o, upto) == IF o.cov >= upto \/ PIx(Text, o.cov) = 0 \/ PIx(Text, o.cov) > Len(Text) THEN o
                      ELSE Uncovered(TextRow(o, o.cov), upto)
Slice(s, t) == SubSeq(Text, PIx(Text, s), PIx(Text, t) - 1)
RowOf(o, e) ==
    LET n == Len(o.rows) + 1
        inText == e.s >= 0 /\ e.t >= 0
        dflt == /\ inText /\ Len(e.p) = 1 /\ e.p[1].l # <<>>
                /\ \A i \in DOMAIN e.p[1].l : e.p[1].l[i][1] = "b"
        ref(k) == IF k \in DOMAIN o.num THEN o.num[k] ELSE 0
    IN [n |-> n, s |-> e.s, t |-> e.t, text |-> IF inText /\ o.cov < e.t THEN Slice(e.s, e.t) ELSE << <<"?", 1>> >>,
        g |-> SetToSeq(e.g), x |-> e.x, c |-> e.c, a |-> e.a, w |-> e.w, dflt |-> dflt,
        p |-> IF dflt THEN <<>> ELSE [i \in DOMAIN e.p |->
                [l |-> [j \in DOMAIN e.p[i].l |-> ref(e.p[i].l[j])], q |-> e.p[i].q,
                 g |-> IF e.p[i].g = e.g THEN <<>> ELSE SetToSeq(e.p[i].g), w |-> IF e.p[i].w = e.w THEN <<>> ELSE <<e.p[i].w>>]]]
RECURSIVE Written(_, _), Parts(_, _)
Cover(o, e) == IF e.s < 0 \/ e.t < 0 \/ e.t <= o.cov THEN o
               ELSE [o EXCEPT !.cov = IF Escaped THEN o.cov + FoldLeft(LAMBDA acc, c : acc + Esc(c), 0, Slice(e.s, e.t)) ELSE e.t]
Parts(o, i) ==      \* the parts of i that have no number yet
    LET ls == FoldLeft(LAMBDA acc, p : acc \o p.l, <<>>, E[i].p)
    IN FoldLeft(LAMBDA acc, k : IF k[1] = "e" /\ k \notin DOMAIN acc.num THEN Written(acc, k[2]) ELSE acc, o, ls)
Written(o, i) ==
    LET e == E[i]
        o0 == IF Late THEN o ELSE Parts(o, i)
        o1 == Uncovered(o0, IF e.s >= 0 THEN e.s ELSE IF e.t >= 0 THEN e.t ELSE 0)
        o2 == IF Late THEN Parts(Cover(o1, e), i) ELSE o1
        r == [RowOf(o2, e) EXCEPT !.text = RowOf(o1, e).text]
        o3 == IF Late THEN o2 ELSE Cover(o2, e)
    IN [rows |-> Append(o2.rows, r), cov |-> o3.cov, num |-> Put(o3.num, <<"e", i>>, r.n)]
\* what ends earlier in the text goes first; what ends at the extra point at any time
WriteOne ==
    /\ mode = "write"
    /\ \E i \in todo :
         /\ \A j \in todo : E[i].t < 0 \/ E[j].t < 0 \/ E[i].t <= E[j].t
         /\ todo' = todo \ {i}
         /\ out' = IF <<"e", i>> \in DOMAIN out.num THEN out ELSE Written(out, i)
    /\ UNCHANGED <<E, hist, mode>>
\* text after everything annotated is written only if it has bare characters
Finish == mode = "write" /\ todo = {} /\ mode' = "done" /\ out' = (IF Sym THEN Uncovered(out, W) ELSE out) /\ UNCHANGED <<E, hist, todo>>
Next == Grow \/ Begin \/ WriteOne \/ Finish
Spec == Init /\ [][Next]_vars
View == <<E, todo, out, mode>>

\* ==== the statement
KLink(k) == IF k[1] = "b" THEN BareLink(k[2], k[3]) ELSE AnnLink(E[k[2]])
Doc == { [s |-> E[i].s, t |-> E[i].t, c |-> E[i].c, x |-> E[i].x, a |-> E[i].a, g |-> E[i].g, w |-> E[i].w,
          p |-> [j \in DOMAIN E[i].p |-> [l |-> [n \in DOMAIN E[i].p[j].l |-> KLink(E[i].p[j].l[n])], q |-> E[i].p[j].q,
                                          g |-> E[i].p[j].g, w |-> E[i].p[j].w]]] : i \in DOMAIN E }
Sense == mode # "grow" => LET R == Read(out.rows) IN R.ok /\ R.ch = SubSeq(Text, 1, Len(R.ch)) /\ R.E \subseteq Doc
Faithful == mode = "done" => LET R == Read(out.rows) IN R.ok /\ R.E = Doc /\ R.ch = SubSeq(Text, 1, Len(R.ch))
                                                   /\ Sym => R.ch = Text
\* renaming extra points is told from losing or mixing them up
Renamed == (mode = "done" /\ E # <<>>) =>
             /\ SameUpToPoints(Doc, { RenEdge((Loose :> -7), e) : e \in Doc })
             /\ \A e \in Doc : ~SameUpToPoints(Doc, Doc \ {e})
Printed == (Emit /\ mode = "done") => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
