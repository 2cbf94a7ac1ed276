----------------------------- MODULE AliasModel -----------------------------
(* Declaring aliases in every order.  Look-ups are functions of what was declared, not of the order. *)
EXTENDS AliasOps, Json
CONSTANTS Names, MaxOps, Emit
VARIABLES dest, hist
vars == <<dest, hist>>
Init == dest = NoAliases /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \/ \E a, d \in Names : dest' = AddAlias(dest, a, d) /\ hist' = Append(hist, [op |-> "alias", a |-> a, d |-> d])
           \/ \E a \in Names : dest' = AddVoid(dest, a) /\ hist' = Append(hist, [op |-> "void", a |-> a])
Spec == Init /\ [][Next]_vars
Declared == { <<hist[i].a, hist[i].d>> : i \in { j \in DOMAIN hist : hist[j].op = "alias" } }
Order == \A a \in Names : /\ IsAlias(dest, a) = \E i \in DOMAIN hist : hist[i].a = a
                          /\ IsAlias(dest, a) => dest[a] = { n \in Names : <<a, n>> \in Declared }
\* reachability, said as the transitive closure (few names: the limit of steps does not matter)
RECURSIVE TC(_)
TC(r) == LET t == r \cup { <<p[1][1], p[2][2]>> : p \in { q \in r \X r : q[1][2] = q[2][1] } }
         IN  IF t = r THEN r ELSE TC(t)
Closure == Cardinality(Names) <= Steps + 1 =>
    \A n \in Names : /\ Destinations(dest, n) = ({n} \cup { m \in Names : <<n, m>> \in TC(Declared) }) \ DOMAIN dest
                     /\ AliasesOf(dest, n) = { a \in DOMAIN dest : a = n \/ <<a, n>> \in TC(Declared) }
Dual == \A a \in DOMAIN dest, n \in Names : n \notin DOMAIN dest => ((n \in Destinations(dest, a)) = (a \in AliasesOf(dest, n)))
Printed == (Emit /\ Len(hist) = MaxOps) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
