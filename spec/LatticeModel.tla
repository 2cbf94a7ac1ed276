---------------------------- MODULE LatticeModel ----------------------------
(* Exhaustive model of a small document, structured like the implementation:
   next to the annotations it keeps the per-mask indices that the Lattice
   maintains incrementally (a mask gets an index the first time it is asked
   for; afterwards every addition and every merge updates it), and it records
   the history of calls so that behaviours can be replayed into the code.

   Checked: the document stays well formed, keys stay unique, links always
   exist, nothing recorded is ever lost, a refused call changes nothing, and
   the index of every mask always equals the answer computed from scratch. *)
EXTENDS LatticeOps, Json

CONSTANTS MaxEdges,     \* explicit annotations
          MaxOps,       \* calls
          MaxLoose, MaxParts,
          Cats,         \* categories of added annotations
          Corr,         \* correction calls
          Emit          \* print every complete history as a script

Text == << <<"a", 1>>, <<"b", 1>> >>
TagSets == { {}, {"token"}, {"!x"}, {"token", "!x"} }
Masks == { [k |-> "any", a |-> <<>>],
           [k |-> "alt", a |-> << <<"token">> >>],
           [k |-> "alt", a |-> << <<"symbol">>, <<"!x", "token">> >>] }

VARIABLES E, nl,
          idx,          \* registered masks: mask -> [point -> sequence of explicit annotations]
          hist,         \* calls made, as a driver script
          last          \* outcome of the last call
vars == <<E, nl, idx, hist, last>>

Pts == Points(Text, nl)
Explicit(i) == ~E[i].imp
SetToList(S) == SelectSeq([i \in 1..(IF S = {} THEN 0 ELSE Max(S)) |-> i], LAMBDA i : i \in S)

\* ==== index maintenance, as the implementation does it
Registered == DOMAIN idx
InsertSorted(q, i) == SelectSeq(q, LAMBDA j : j < i) \o <<i>> \o SelectSeq(q, LAMBDA j : j > i)
\* after E becomes E2: put the annotations that are new or changed their tags into the indices
\* of the masks that match them (removal never happens: tags only grow)
Updated(E2) ==
    [m \in Registered |->
        LET touched == { i \in DOMAIN E2 : ~E2[i].imp /\ (i > Len(E) \/ E2[i].g # E[i].g) }
        IN  FoldLeft(LAMBDA f, i :
                IF Matches(E2[i].g, m) /\ i \notin Range(f[E2[i].s])
                THEN [f EXCEPT ![E2[i].s] = InsertSorted(@, i)] ELSE f,
                idx[m], SetToList(touched))]
\* what a query answers: the bare character first, then the index
Answer(v, m) == SelectSeq([i \in 1..Len(E) |-> i], LAMBDA i : E[i].imp /\ E[i].s = v /\ Matches(E[i].g, m))
                \o idx[m][v]
AllPts == Points(Text, MaxLoose)
Build(m) == [v \in AllPts |-> SelectSeq([i \in 1..Len(E) |-> i],
                                        LAMBDA i : ~E[i].imp /\ E[i].s = v /\ Matches(E[i].g, m))]

\* ==== calls
Do(op, x) ==
    /\ Len(hist) < MaxOps
    /\ E' = x.E
    /\ idx' = Updated(x.E)
    /\ hist' = Append(hist, op)
    /\ last' = x.r

NumParts == FoldLeft(LAMBDA acc, e : acc + Len(e.p), 0, E)
Request(s, t, c, x, g, q, w) == [s |-> s, t |-> t, c |-> c, x |-> x, a |-> <<>>, g |-> g, q |-> q, w |-> w,
                                 rule |-> -1, h |-> -1]
Script(s, t, c, x, g, q, w) == [op |-> "add", s |-> s, t |-> t, c |-> c, x |-> x, a |-> <<>>, g |-> SetToSeq(g),
                                seq |-> q, w |-> w, rule |-> -1, h |-> -1]
\* position of annotation i in the document's own listing (points in text order, then extra points;
\* the driver refers to annotations by that position)
Listing == LET ps == SetToSortSeq({ p \in Pts : p >= 0 }, LAMBDA a, b : a < b)
                     \o SetToSortSeq({ p \in Pts : p < 0 }, LAMBDA a, b : a > b)
           IN FoldLeft(LAMBDA acc, v : acc \o Out(E, v, [k |-> "any"]), <<>>, ps)
PosOf(i) == (CHOOSE k \in DOMAIN Listing : Listing[k] = i) - 1
\* order of points that keeps the graph acyclic: the extra point lies between 0 and 1
Rank(v) == CASE v = 0 -> 0 [] v = -1 -> 1 [] v = -2 -> 2 [] OTHER -> 2 + v
Pairs == { <<a, b>> \in Pts \X Pts : Rank(a) <= Rank(b) } \cup { <<1, 0>> }
Links == { <<>> } \cup { <<i>> : i \in DOMAIN E }

Adding(s, t, c, x, g, q, w) ==
    LET res == Add(Text, E, Request(s, t, c, x, g, q, w))
    IN  /\ Len(res.E) <= MaxEdges + Len(Text)
        /\ FoldLeft(LAMBDA acc, e : acc + Len(e.p), 0, res.E) <= MaxParts
        /\ Do(Script(s, t, c, x, g, [k \in DOMAIN q |-> PosOf(q[k])], w), res)
        /\ UNCHANGED nl
AddAnnotation == \E st \in Pairs, c \in Cats, g \in TagSets, q \in Links, w \in {0, 1} :
                    (w = 1 => g # {}) /\ Adding(st[1], st[2], c, "", g, q, w)
AddSymbolLike == \E g \in { {"symbol"}, {"symbol", "token"} } : \E i \in 1..2 :
                    Adding(i - 1, i, "'" \o Text[i][1], Text[i][1], g, <<>>, 0)
AddLoose == /\ ~Corr /\ nl < MaxLoose /\ Len(hist) < MaxOps
            /\ nl' = nl + 1
            /\ hist' = Append(hist, [op |-> "loose"])
            /\ last' = "ok"
            /\ UNCHANGED <<E, idx>>
DiscardOne == \E i \in DOMAIN E :
                /\ NumParts < MaxParts
                /\ Do([op |-> "discard", e |-> PosOf(i)], [r |-> "ok", E |-> Discard(Text, E, i).E])
                /\ UNCHANGED nl
Query == \E m \in Masks \ Registered :
            /\ Len(hist) < MaxOps
            /\ idx' = [k \in Registered \cup {m} |-> IF k = m THEN Build(m) ELSE idx[k]]
            /\ hist' = Append(hist, [op |-> "out", v |-> 0, m |-> m])
            /\ last' = "ok"
            /\ UNCHANGED <<E, nl>>

Correct(op, x) ==
    /\ x.nl <= MaxLoose
    /\ nl' = x.nl
    /\ Do(op, x)
Texts == { <<>>, <<"x">>, <<"a">>, <<"b", "x">> }
Str(txt) == FoldLeft(LAMBDA acc, c : acc \o c, "", txt)
CorrectInsert == \E v \in {0, 1, 2}, txt \in Texts :
                    Correct([op |-> "cins", s |-> v, x |-> Str(txt)], CorrInsert(Text, E, nl, v, txt))
CorrectErase == \E v, w \in {0, 1, 2} : v <= w /\
                    Correct([op |-> "cers", s |-> v, t |-> w], CorrErase(Text, E, nl, v, w))
CorrectReplace == \E v, w \in {0, 1, 2}, txt \in Texts : v <= w /\
                    Correct([op |-> "crep", s |-> v, t |-> w, x |-> Str(txt)], CorrReplace(Text, E, nl, v, w, txt))
Init == /\ E = Symbols(Text, <<>>, 0, 2)
        /\ nl = 0 /\ idx = <<>>
        /\ hist = << [op |-> "reset", text |-> "ab", sym |-> TRUE] >>
        /\ last = "ok"
Next == /\ Len(hist) < MaxOps
        /\ \/ AddAnnotation
           \/ AddSymbolLike
           \/ AddLoose
           \/ DiscardOne
           \/ Query
           \/ (Corr /\ CorrectInsert)
           \/ (Corr /\ CorrectErase)
           \/ (Corr /\ CorrectReplace)
Spec == Init /\ [][Next]_vars
Printed == (Emit /\ Len(hist) = MaxOps) => PrintT("SCRIPT " \o ToJson(hist))
\* without the history the states are fewer
View == <<E, nl, idx, last, Len(hist)>>

\* ==== properties
DocumentOK == WellFormed(Text, nl, E) /\ Unique(E) /\ LinksExist(E) /\ TagsAreUnion(E) /\ ScoreIsBest(E)
IndexExact == \A m \in Registered : \A v \in Pts : Answer(v, m) = Out(E, v, m)
\* the text read before a correction can be read afterwards, and so can the corrected text
StillReadable == [][ (Corr /\ Len(hist') > Len(hist)) =>
                        LET W(EE, txt) == ReadFrom([i \in DOMAIN EE |-> [s |-> EE[i].s, t |-> EE[i].t, c |-> EE[i].c,
                                                                    g |-> SetToSeq(EE[i].g)]], {0}, txt)
                            op == hist'[Len(hist')]
                        IN /\ \A v \in W(E, <<"a", "b">>) : v \in W(E', <<"a", "b">>)
                           /\ (op.op = "cins" /\ op.s = 1 /\ op.x = "x") => 2 \in W(E', <<"a", "x", "b">>)
                           /\ (op.op = "crep" /\ last' = "ok" /\ op.s = 0 /\ op.t = 1 /\ op.x = "x") => 2 \in W(E', <<"x", "b">>)
                           /\ (op.op = "cers" /\ last' = "ok" /\ op.s = 0 /\ op.t = 1) => 2 \in W(E', <<"b">>) ]_vars
NothingLost == [][ Keeps(E, E') ]_vars
RefusedChangesNothing == [][ (last' # "ok" /\ hist'[Len(hist')].op = "add") => UNCHANGED <<E, nl, idx>> ]_vars
=============================================================================
