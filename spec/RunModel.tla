----------------------------- MODULE RunModel -----------------------------
(* The runner as a machine that reads its input character by character, keeps its processors from line to line, makes a
   document for every line (or one for all), reads it, cuts it paragraph after paragraph and writes it.  Leak: what a
   faulty runner would carry over ("doc": the document; "cut": the pieces of the cutter; "eof": the last line is
   forgotten when no newline ends it; "empty": an empty line ends the run). *)
EXTENDS RunOps, TLC, Json
CONSTANTS Alphabet, MaxInput, Kinds, Readers, Limits, Leak, Emit, Again

I(c, r) == [cls |-> <<c>>, neg |-> FALSE, rep |-> r]
Alpha == { "a", " ", "ł", "\n" }
RuleLists == { <<[c |-> "Ra", re |-> <<<<I("a", "+")>>>>]>>,
               <<[c |-> "Rb", re |-> <<<<I("a", "1"), I(" ", "?")>>>>], [c |-> "Rc", re |-> <<<<[cls |-> <<"a">>, neg |-> TRUE, rep |-> "1"], I("a", "*")>>>>]>> }
Inputs == UNION { [1..n -> Alphabet] : n \in 0..MaxInput }
Pipes == { [kind |-> k, rules |-> rl, hard |-> h, soft |-> 0, reader |-> rd, blank |-> b, sep |-> "|"] :
             k \in Kinds, rl \in RuleLists, h \in Limits, rd \in Readers, b \in BOOLEAN }
Useful == { p \in Pipes : p.kind = "tok" \/ (p.hard = 0 /\ p.rules[1].c = "Ra") }

VARIABLES P, byline, input, pos, cur, phase, doc, todo, pieces, out, done, runs
vars == <<P, byline, input, pos, cur, phase, doc, todo, pieces, out, done, runs>>
Init == /\ P \in Useful /\ byline \in BOOLEAN /\ input \in Inputs /\ pos = 0 /\ cur = <<>> /\ phase = "read"
        /\ doc = <<>> /\ todo = <<>> /\ pieces = <<>> /\ out = "" /\ done = <<>> /\ runs = 1

\* reading: a line when run line by line, everything otherwise
Fresh(x) == IF Leak = "doc" THEN doc \o x ELSE x
Hand(t) == /\ doc' = Fresh(LinesOf(t)) /\ todo' = Paragraphs(P, Fresh(LinesOf(t))) /\ phase' = "cut"
           /\ pieces' = (IF Leak = "cut" THEN pieces ELSE <<>>)
ReadChar ==
    /\ phase = "read" /\ pos < Len(input) /\ pos' = pos + 1
    /\ LET ch == input[pos + 1] IN
       IF byline /\ ch = Newline
       THEN IF Leak = "empty" /\ cur = <<>> THEN phase' = "end" /\ UNCHANGED <<doc, todo, pieces, cur, done>>
            ELSE Hand(cur) /\ cur' = <<>> /\ done' = Append(done, cur)
       ELSE cur' = Append(cur, ch) /\ UNCHANGED <<doc, todo, pieces, phase, done>>
    /\ UNCHANGED <<P, byline, input, out, runs>>
ReadEnd ==
    /\ phase = "read" /\ pos = Len(input)
    /\ IF byline
       THEN IF cur = <<>> \/ Leak = "eof" THEN phase' = "end" /\ UNCHANGED <<doc, todo, pieces, done>>
            ELSE Hand(cur) /\ done' = Append(done, cur)
       ELSE Hand(cur) /\ done' = Append(done, cur)
    /\ cur' = <<>>
    /\ UNCHANGED <<P, byline, input, pos, out, runs>>
CutOne ==
    /\ phase = "cut" /\ todo # <<>>
    /\ IF P.kind # "frag" /\ Fails(PiecesOf(P, todo[1])) THEN phase' = "failed" /\ UNCHANGED <<todo, pieces>>
       ELSE /\ pieces' = pieces \o Shown(P, todo[1]) /\ todo' = Tail(todo) /\ phase' = "cut"
    /\ UNCHANGED <<P, byline, input, pos, cur, doc, out, done, runs>>
Write ==
    /\ phase = "cut" /\ todo = <<>>
    /\ out' = out \o Joined(pieces, P.sep) \o "\n"
    /\ phase' = IF byline THEN "read" ELSE "end"
    /\ UNCHANGED <<P, byline, input, pos, cur, doc, todo, pieces, done, runs>>
\* the same runner is given another input, also after a failure
More ==
    /\ phase \in {"end", "failed"} /\ runs < Again /\ runs' = runs + 1 /\ input' \in { x \in Inputs : Len(x) <= 2 }
    /\ pos' = 0 /\ cur' = <<>> /\ phase' = "read" /\ out' = "" /\ done' = <<>> /\ UNCHANGED <<P, byline, doc, todo, pieces>>
Next == ReadChar \/ ReadEnd \/ CutOne \/ Write \/ More
Spec == Init /\ [][Next]_vars

F(l) == LineOut(P, l)
Want == IF byline THEN ByLine(F, LinesOf(input)) ELSE DocOut(P, LinesOf(input))
Right == /\ phase = "end" => [out |-> out, fail |-> FALSE] = Want
         /\ phase = "failed" => [out |-> out, fail |-> TRUE] = Want
\* so far, too
SoFar == (byline /\ phase = "read") => [out |-> out, fail |-> FALSE] = ByLine(F, done)
\* what a run line by line writes is made of what every line alone writes, whatever stands around it
Independent == (byline /\ phase = "end") =>
    \A k \in 0..Len(done) : out = ByLine(F, SubSeq(done, 1, k)).out \o ByLine(F, SubSeq(done, k + 1, Len(done))).out
Rejoined == TextOfLines(LinesOf(input), Len(input) > 0 /\ input[Len(input)] = Newline) = input
Printed == (Emit /\ pos = 0 /\ phase = "read" /\ runs = 1) => PrintT("SCRIPT " \o ToJson([pipe |-> P, byline |-> byline, input |-> input]))
EmitOnly == ~Emit \/ (pos = 0 /\ phase = "read")
=============================================================================
