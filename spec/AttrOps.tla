------------------------------ MODULE AttrOps ------------------------------
(* What the attributes of an annotation mean.

   An annotation item is [c |-> category, x |-> text, a |-> attributes] where the attributes are a
   function from the names that were set to values.  A value is [k |-> kind, t |-> text]:
   "sym" (a piece of text), "int" (a number, text in canonical decimal form), "any" (true, not
   specified) or "no" (false).  Textual settings are numbers when they spell one, and the words
   nil/any and fail/false/empty spell the truth values (Meaning). *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

No == [k |-> "no", t |-> "fail"]
AnyV == [k |-> "any", t |-> "nil"]
Sym(s) == [k |-> "sym", t |-> s]
Num(s) == [k |-> "int", t |-> s]

\* the value a text spells; num: "" or the canonical form of the number the text spells
Meaning(s, num) == CASE num # "" -> Num(num)
                     [] s \in {"nil", "any"} -> AnyV
                     [] s \in {"fail", "false", "empty"} -> No
                     [] OTHER -> Sym(s)

None == [n \in {} |-> 0]
Item(c, x) == [c |-> c, x |-> x, a |-> None]
Set(i, name, v) == [i EXCEPT !.a = (name :> v) @@ @]
\* every attribute present in s is set in i to the value it has in s
AddAll(i, s) == [i EXCEPT !.a = s.a @@ @]

\* what reading says: absent attributes read as false
Value(i, name) == IF name \in DOMAIN i.a THEN i.a[name] ELSE No
Equal(i, j) == /\ i.c = j.c /\ i.x = j.x
               /\ \A n \in DOMAIN i.a \cup DOMAIN j.a : Value(i, n) = Value(j, n)
=============================================================================
