------------------------------ MODULE TagModel ------------------------------
(* Tag collections as the implementation stores them: a registry giving every name the next free
   position, collections as sets of positions, plane tags accumulated as a set of positions,
   conditions as sequences of such sets.  Checked: the answers given on positions are the answers
   on names, whatever the order of registration.  Prints histories as driver scripts. *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC, Json
CONSTANTS MaxOps, MaxColl, MaxMask, Emit
Names == {"symbol", "a", "!p"}
PlaneNames == {"!p"}
NameLists == { <<"a">>, <<"!p">>, <<"a", "!p">>, <<"!p", "symbol">>, <<"a", "a">> }
VARIABLES reg, cb, mb, pb,   \* positions: registry, collections, conditions, planes
          cs, ms,            \* names: collections, conditions
          hist
vars == <<reg, cb, mb, pb, cs, ms, hist>>
RegAll(r, ns) == FoldLeft(LAMBDA acc, n : IF n \in Range(acc) THEN acc ELSE Append(acc, n), r, ns)
Bits(r, S) == { i \in DOMAIN r : r[i] \in S }
NamesOf(B) == { reg[i] : i \in B }
Planes(ns) == SelectSeq(ns, LAMBDA n : n \in PlaneNames)
Room == Len(hist) <= MaxOps
Create == \E ns \in NameLists :
    /\ Len(cs) < MaxColl
    /\ LET r2 == RegAll(reg, ns) IN
       /\ reg' = r2
       /\ cb' = Append(cb, Bits(r2, Range(ns)))
       /\ pb' = pb \cup Bits(r2, Range(Planes(ns)))
    /\ cs' = Append(cs, Range(ns))
    /\ hist' = Append(hist, [op |-> "coll", how |-> IF Len(ns) = 1 THEN "single" ELSE "list", names |-> ns,
                             langtag |-> <<>>, plane |-> Planes(ns)])
    /\ UNCHANGED <<mb, ms>>
Combine == \E i, j \in DOMAIN cs, what \in {"union", "inter", "onlyplane"} :
    /\ Len(cs) < MaxColl /\ i <= j
    /\ cb' = Append(cb, CASE what = "union" -> cb[i] \cup cb[j] [] what = "inter" -> cb[i] \cap cb[j] [] OTHER -> cb[i] \cap pb)
    /\ cs' = Append(cs, CASE what = "union" -> cs[i] \cup cs[j] [] what = "inter" -> cs[i] \cap cs[j] [] OTHER -> cs[i] \cap PlaneNames)
    /\ hist' = Append(hist, [op |-> what, a |-> i, b |-> j, plane |-> <<>>])
    /\ UNCHANGED <<reg, mb, pb, ms>>
MakeMask == \E i, j \in DOMAIN cs :
    /\ Len(ms) < MaxMask
    /\ mb' = Append(mb, IF i = j THEN <<cb[i]>> ELSE <<cb[i], cb[j]>>)
    /\ ms' = Append(ms, IF i = j THEN <<cs[i]>> ELSE <<cs[i], cs[j]>>)
    /\ hist' = Append(hist, [op |-> "mask", how |-> IF i = j THEN "coll" ELSE "alt2", a |-> i, b |-> j, plane |-> <<>>])
    /\ UNCHANGED <<reg, cb, pb, cs>>
Ask == \E i \in DOMAIN ms, what \in {"isnone", "issome"} :
    /\ hist[Len(hist)].op # what
    /\ hist' = Append(hist, [op |-> what, m |-> i, plane |-> <<>>])
    /\ UNCHANGED <<reg, cb, mb, pb, cs, ms>>
Init == /\ reg = <<"symbol">> /\ cb = <<>> /\ mb = <<>> /\ pb = {} /\ cs = <<>> /\ ms = <<>>
        /\ hist = <<[op |-> "reset", plane |-> <<>>]>>
Next == Room /\ (Create \/ Combine \/ MakeMask \/ Ask)
Spec == Init /\ [][Next]_vars
View == <<reg, cb, mb, pb, cs, ms, Len(hist)>>
Printed == (Emit /\ Len(hist) = MaxOps + 1) => PrintT("SCRIPT " \o ToJson(hist))
BMatch(g, m) == \E k \in DOMAIN m : m[k] \subseteq g
Faithful ==
    /\ \A i \in DOMAIN cs : NamesOf(cb[i]) = cs[i]
    /\ \A i, j \in DOMAIN cs : /\ (cb[i] \subseteq cb[j]) = (cs[i] \subseteq cs[j])
                               /\ (cb[i] = cb[j]) = (cs[i] = cs[j])
                               /\ (cb[i] \cap pb = cb[j] \cap pb) = (cs[i] \cap PlaneNames = cs[j] \cap PlaneNames)
    /\ \A i \in DOMAIN ms, j \in DOMAIN cs : BMatch(cb[j], mb[i]) = BMatch(cs[j], ms[i])
=============================================================================
