----------------------------- MODULE LexModel -----------------------------
(* How a lexicon is compiled and asked, checked against LexOps: the lines of the text are read one by one and grouped
   by key; the keys are numbered by SOME perfect hash, which gives keys never put in some number, too; next to the
   value of every number the fingerprint of its key is kept.  Stores are written one after another into one stream
   and read back. *)
EXTENDS LexOps, Json
CONSTANTS Universe,     \* lines of a text
          MaxLines, Foreign, \* keys never put in
          Group,        \* "keys": lines of a key belong together wherever they are; "runs": only adjacent ones
          Prints,       \* whether fingerprints are compared
          Emit

Lines == {"a x", "b y;z", " a_b\tw # c", "a", "  ", "c \\q", "a \\_u"}
VARIABLES lines,    \* of the text
          pc,       \* "read", "asked", "failed"
          pos, ents,     \* lines read so far; pairs <<key, value>>
          hash, vals, fps,   \* the compiled lexicon
          stream, rpos, back  \* what was written, the place of the reader, the stores read back
vars == <<lines, pc, pos, ents, hash, vals, fps, stream, rpos, back>>
None == [i \in {} |-> 0]
Nowhere == -1

Texts == UNION { [1..n -> Universe] : n \in 0..MaxLines }
Init == /\ lines \in Texts /\ pc = "read" /\ pos = 0 /\ ents = <<>>
        /\ hash = None /\ vals = <<>> /\ fps = <<>> /\ stream = <<>> /\ rpos = 0 /\ back = <<>>

ReadLine ==
    /\ pc = "read" /\ pos < Len(lines)
    /\ LET e == LineOf(lines[pos + 1])
           at == { i \in DOMAIN ents : e.k = "entry" /\ ents[i][1] = e.key /\ (Group = "keys" \/ i = Len(ents)) }
       IN  /\ pos' = pos + 1
           /\ pc' = IF e.k = "bad" THEN "failed" ELSE "read"
           /\ ents' = IF e.k # "entry" THEN ents
                      ELSE IF at # {} THEN [ents EXCEPT ![CHOOSE i \in at : TRUE][2] = @ \o ";" \o e.rec]
                      ELSE Append(ents, <<e.key, e.rec>>)
    /\ UNCHANGED <<lines, hash, vals, fps, stream, rpos, back>>
\* fingerprints: those of different keys differ
Compile ==
    /\ pc = "read" /\ pos = Len(lines)
    /\ LET n == Len(ents) ks == { ents[i][1] : i \in 1..n }
       IN  /\ Cardinality(ks) = n          \* a perfect hash exists
           /\ \E h \in [ks \cup Foreign -> 1..(IF n = 0 THEN 1 ELSE n)] :
                /\ \A a, b \in ks : a # b => h[a] # h[b]
                /\ hash' = h
                /\ LET of == [i \in 1..n |-> CHOOSE e \in 1..n : h[ents[e][1]] = i]
                   IN vals' = [i \in 1..n |-> ents[of[i]][2]] /\ fps' = [i \in 1..n |-> ents[of[i]][1]]
    /\ pc' = "asked"
    /\ UNCHANGED <<lines, pos, ents, stream, rpos, back>>
\* a store in a stream: its length first, then its parts
Write == /\ pc = "asked" /\ Len(stream) < 2
         /\ stream' = Append(stream, [hash |-> hash, vals |-> vals, fps |-> fps])
         /\ UNCHANGED <<lines, pc, pos, ents, hash, vals, fps, rpos, back>>
ReadBack == /\ rpos < Len(stream) /\ rpos' = rpos + 1 /\ back' = Append(back, stream[rpos + 1])
            /\ UNCHANGED <<lines, pc, pos, ents, hash, vals, fps, stream>>
Next == ReadLine \/ Compile \/ Write \/ ReadBack
Spec == Init /\ [][Next]_vars

Ask(st, k) == IF k \in DOMAIN st.hash /\ st.fps # <<>> /\ (~Prints \/ st.fps[st.hash[k]] = k)
              THEN SplitAt(st.vals[st.hash[k]], {";"}) ELSE <<>>
Want == ReadText(lines)
Now == [hash |-> hash, vals |-> vals, fps |-> fps]
Queried == Foreign \cup DOMAIN Want.lex
Outcome == /\ pc = "failed" => ~Want.ok
           /\ pc = "asked" => Want.ok
Compiles == (pc = "read" /\ pos = Len(lines)) => ENABLED Compile
Answers == pc = "asked" => \A k \in Queried : Ask(Now, k) = Records(Want.lex, k)
Restored == \A i \in DOMAIN back : \A k \in Queried : Ask(back[i], k) = Records(Want.lex, k)
Stop == pos = 0 /\ pc = "read"
Printed == (Emit /\ pos = 0 /\ pc = "read" /\ stream = <<>>) =>
    PrintT("SCRIPT " \o ToJson([lines |-> lines]))
=============================================================================
