---------------------------- MODULE SessionModel ----------------------------
(* Clients send requests that several threads of the server handle; handling is several steps (find
   or make the session, make it the current one, let the action store the form in the current
   session, make the page for the current session), and between the steps of one thread the others
   go on unless handling is one at a time (OneAtATime). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, MaxReq, OneAtATime, Emit
VARIABLES ses,      \* session -> its data (set of stored values); sessions are numbered
          current,  \* the current session of the server
          pc, who, cookie, val, page, lock, sent, hist
vars == <<ses, current, pc, who, cookie, val, page, lock, sent, hist>>
Init == /\ ses = <<>> /\ current = 0 /\ lock = 0 /\ sent = 0 /\ hist = <<>>
        /\ pc = [t \in Threads |-> "idle"] /\ who = [t \in Threads |-> 0] /\ cookie = [t \in Threads |-> 0]
        /\ val = [t \in Threads |-> 0] /\ page = [t \in Threads |-> 0]
Set(f, t, x) == [f EXCEPT ![t] = x]
\* cookie 0: none or one the server does not know
Arrive(t) == \E c \in 0..Len(ses) :
    /\ pc[t] = "idle" /\ sent < MaxReq /\ (OneAtATime => lock = 0)
    /\ pc' = Set(pc, t, "find") /\ cookie' = Set(cookie, t, c) /\ val' = Set(val, t, sent + 1) /\ sent' = sent + 1
    /\ lock' = IF OneAtATime THEN t ELSE 0
    /\ hist' = Append(hist, [c |-> c, v |-> sent + 1])
    /\ UNCHANGED <<ses, current, who, page>>
FindIt(t) == /\ pc[t] = "find" /\ pc' = Set(pc, t, "act")
             /\ IF cookie[t] # 0 THEN ses' = ses /\ who' = Set(who, t, cookie[t])
                ELSE ses' = Append(ses, {}) /\ who' = Set(who, t, Len(ses) + 1)
             /\ current' = who'[t]
             /\ UNCHANGED <<cookie, val, page, lock, sent, hist>>
Act(t) == /\ pc[t] = "act" /\ pc' = Set(pc, t, "page")
          /\ ses' = [ses EXCEPT ![current] = @ \cup {val[t]}]
          /\ UNCHANGED <<current, who, cookie, val, page, lock, sent, hist>>
MakePage(t) == /\ pc[t] = "page" /\ pc' = Set(pc, t, "done") /\ page' = Set(page, t, current)
               /\ UNCHANGED <<ses, current, who, cookie, val, lock, sent, hist>>
Finish(t) == /\ pc[t] = "done" /\ pc' = Set(pc, t, "idle") /\ lock' = 0
             /\ UNCHANGED <<ses, current, who, cookie, val, page, sent, hist>>
Next == \E t \in Threads : Arrive(t) \/ FindIt(t) \/ Act(t) \/ MakePage(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
View == <<ses, current, pc, who, cookie, val, page, lock, sent>>
OwnPage == \A t \in Threads : pc[t] = "done" => page[t] = who[t]
OwnData == \A t \in Threads : pc[t] \in {"page", "done"} => /\ val[t] \in ses[who[t]]
                                                            /\ \A s \in DOMAIN ses : s # who[t] => val[t] \notin ses[s]
CookieKept == \A t \in Threads : (pc[t] \in {"act", "page", "done"} /\ cookie[t] # 0) => who[t] = cookie[t]
Printed == (Emit /\ sent = MaxReq /\ \A t \in Threads : pc[t] = "idle") => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
