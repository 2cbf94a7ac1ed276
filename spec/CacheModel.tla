----------------------------- MODULE CacheModel -----------------------------
(* Loading through the cache: an object per path, made once; clearing forgets, but what was handed
   out stays; a load that fails leaves nothing behind. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, MaxOps, Emit
VARIABLES cached, loads, unloadable, kept, gen, hist
vars == <<cached, loads, unloadable, kept, gen, hist>>
Init == cached = << >> /\ loads = 0 /\ unloadable = {} /\ kept = {} /\ gen = 0 /\ hist = << [op |-> "cache"] >>
Log(e) == Len(hist) <= MaxOps /\ hist' = Append(hist, e)
Load(p) == /\ Log([op |-> "load", p |-> p, keep |-> TRUE])
           /\ IF p \in DOMAIN cached
              THEN kept' = kept \cup {[p |-> p, n |-> cached[p], g |-> gen]} /\ UNCHANGED <<cached, loads>>
              ELSE /\ loads' = loads + 1
                   /\ IF p \in unloadable THEN UNCHANGED <<cached, kept>>
                      ELSE /\ cached' = [x \in DOMAIN cached \cup {p} |-> IF x = p THEN loads + 1 ELSE cached[x]]
                           /\ kept' = kept \cup {[p |-> p, n |-> loads + 1, g |-> gen]}
           /\ UNCHANGED <<unloadable, gen>>
Break(p) == /\ Log([op |-> "break", p |-> p, b |-> p \notin unloadable])
            /\ unloadable' = IF p \in unloadable THEN unloadable \ {p} ELSE unloadable \cup {p}
            /\ UNCHANGED <<cached, loads, kept, gen>>
Clear == Log([op |-> "clear"]) /\ cached' = << >> /\ gen' = gen + 1 /\ UNCHANGED <<loads, unloadable, kept>>
Next == Clear \/ \E p \in Paths : Load(p) \/ Break(p)
Spec == Init /\ [][Next]_vars
OncePerGeneration == \A a, b \in kept : a.g = b.g /\ a.p = b.p => a.n = b.n
NeverShared == \A a, b \in kept : a.n = b.n => a.p = b.p
Printed == (Emit /\ Len(hist) = MaxOps + 1) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
