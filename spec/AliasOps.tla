------------------------------ MODULE AliasOps ------------------------------
(* Alias declarations: a function from alias names to sets of names.  A look-up follows at most Steps
   aliases (the documented limit on the depth of alias definitions). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Steps == 5
NoAliases == [a \in {} |-> {}]
IsAlias(d, n) == n \in DOMAIN d
AddAlias(d, a, n) == (a :> ({n} \cup (IF IsAlias(d, a) THEN d[a] ELSE {}))) @@ d
AddVoid(d, a) == IF IsAlias(d, a) THEN d ELSE (a :> {}) @@ d
RECURSIVE Reach(_, _, _)
Reach(d, ns, k) == IF k = 0 THEN ns
                   ELSE Reach(d, ns \cup UNION { d[n] : n \in ns \cap DOMAIN d }, k - 1)
Destinations(d, n) == Reach(d, {n}, Steps) \ DOMAIN d
AliasesOf(d, n) == { a \in DOMAIN d : n \in Reach(d, {a}, Steps) }
BaseAlias(tag) == tag \o "-generator"
=============================================================================
