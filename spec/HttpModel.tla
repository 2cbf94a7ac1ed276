----------------------------- MODULE HttpModel -----------------------------
(* A client sends a well-formed request (possibly with one byte damaged) in pieces of any size; the
   server reads each piece as it comes.  Checked: whatever the pieces, the request is accepted
   exactly at its last byte with exactly the fields that were sent, a damaged request is rejected
   no later than at the damaged byte when that byte cannot be part of any request, and nothing of
   one request shows in the next one read by the same parser. *)
EXTENDS HttpOps, Json
CONSTANTS Rounds, MaxPiece, Emit
VARIABLES q,      \* the request being sent
          dam,    \* position of the damaged byte, 0 if none
          sent, s, round, hist
vars == <<q, dam, sent, s, round, hist>>
GET == <<71>>
A == [n |-> <<65>>, v |-> <<98>>]
E0 == [n |-> <<69>>, v |-> <<>>]
CL(n) == [n |-> ContentLength, v |-> <<48 + n>>]
Multi == [n |-> ContentType, v |-> Multipart]
Req(m, u, hs, body) == [m |-> m, u |-> u, maj |-> 1, min |-> 1, hs |-> hs, body |-> body]
Requests == { Req(GET, <<47>>, hs, <<>>) : hs \in { <<>>, <<A>>, <<E0, A>>, <<CL(2)>> } }
       \cup { Req(POST, <<>>, <<CL(Len(b))>> \o hs, b) : hs \in { <<>>, <<A>> }, b \in { <<>>, <<120>>, <<120, 121>> } }
       \cup { Req(POST, <<47>>, <<CL(Len(b)), Multi>>, b) : b \in { <<10>>, <<120, 13, 10>> } }
       \cup { Req(POST, <<47>>, <<A>>, <<>>) }
Wire(x, d) == LET w == Render(x) IN IF d = 0 THEN w ELSE [w EXCEPT ![d] = 1]
Bytes == Wire(q, dam)
Init == /\ q \in Requests /\ dam \in {0} \cup { d \in 1..Len(Render(q)) : d % 3 = 1 }
        /\ sent = 0 /\ s = Fresh /\ round = 1 /\ hist = <<[op |-> "new"]>>
Send == \E n \in 1..MaxPiece :
    /\ s.r = "more" /\ sent + n <= Len(Bytes)
    /\ (n = MaxPiece \/ sent + n = Len(Bytes) \/ sent % 2 = 0)   \* some, not all, ways of splitting
    /\ LET x == Read(s, SubSeq(Bytes, sent + 1, sent + n), 1) IN s' = x.s
    /\ sent' = sent + n
    /\ hist' = Append(hist, [op |-> "feed", b |-> SubSeq(Bytes, sent + 1, sent + n)])
    /\ UNCHANGED <<q, dam, round>>
Again == /\ round < Rounds /\ (s.r # "more" \/ sent > 3)
         /\ q' \in { Req(GET, <<47>>, <<A>>, <<>>), Req(POST, <<>>, <<CL(1)>>, <<120>>) } /\ dam' = 0
         /\ sent' = 0 /\ s' = Fresh /\ round' = round + 1
         /\ hist' = Append(hist, [op |-> "again"])
Next == Send \/ Again
Spec == Init /\ [][Next]_vars
View == <<q, dam, sent, s, round>>
Done == sent = Len(Bytes) \/ s.r # "more"
Printed == (Emit /\ Done) => PrintT("SCRIPT " \o ToJson(hist))
Fields(x) == [m |-> x.m, u |-> x.u, maj |-> x.maj, min |-> x.min, hs |-> x.hs, body |-> x.body]
AcceptedAtLastByte == dam = 0 => /\ (s.r = "ok") = (sent = Len(Bytes))
                                 /\ s.r # "bad"
                                 /\ s.r = "ok" => Fields(s) = q
\* a control byte is never allowed outside a multipart body
DamageFound == (dam # 0 /\ ~(s.multi /\ dam > Len(Bytes) - Len(q.body))
                /\ (q.m # POST \/ dam <= Len(Bytes) - Len(q.body)) /\ sent >= dam) => s.r = "bad"
NotEarly == (dam # 0 /\ sent < dam) => s.r = "more"
=============================================================================
