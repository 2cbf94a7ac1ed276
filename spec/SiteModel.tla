----------------------------- MODULE SiteModel -----------------------------
(* Addresses put together from every sequence of a few pieces, against a file system that has files
   inside and outside of the document root.  Walk is what the operating system does with a path,
   ".." included: whatever the address, the page answered is a file inside the root, the one the
   path leads to, or no file at all. *)
EXTENDS SiteOps, Json
CONSTANTS MaxPieces, Emit
VARIABLES u
vars == <<u>>
Pieces == { <<47>>, <<97, 46, 104, 116, 109, 108>>, <<100>>, <<46, 46>>, <<46>>, <<37, 50, 101>>, <<37, 50, 70>>, <<37, 122, 122>>, <<43>>, <<37, 48, 48>>, <<115, 101, 99, 114, 101, 116>>, <<37>>, <<88>> }
Root == << <<115, 114, 118>>, <<115, 105, 116, 101>> >>
A == << <<97>> >>
\* files by their full path
World == (Root \o << <<97, 46, 104, 116, 109, 108>> >>) :> <<1>> @@ (Root \o << <<100>>, <<105, 110, 100, 101, 120, 46, 104, 116, 109, 108>> >>) :> <<2>> @@ (Root \o << <<100>>, <<97, 46, 104, 116, 109, 108>> >>) :> <<3>>
         @@ << <<115, 114, 118>>, <<115, 101, 99, 114, 101, 116>> >> :> <<4>> @@ << <<115, 114, 118>>, <<97, 46, 104, 116, 109, 108>> >> :> <<5>> @@ << <<97, 46, 104, 116, 109, 108>> >> :> <<6>> @@ << <<115, 114, 118>>, <<115, 105, 116, 101, 88>>, <<97, 46, 104, 116, 109, 108>> >> :> <<7>>
Inside == [p \in { SubSeq(w, 3, Len(w)) : w \in { x \in DOMAIN World : StartsWith(x, Root) } } |-> World[Root \o p]]
Dirs == UNION { { SubSeq(w, 1, k) : k \in 0..(Len(w) - 1) } : w \in DOMAIN World }
Up == <<Dot, Dot>>
\* follow the components of a path; <<>> as content when nothing is there
RECURSIVE Walk(_, _)
Walk(at, cs) == IF cs = <<>> THEN IF at \in DOMAIN World THEN World[at] ELSE <<>>
                ELSE IF at \notin Dirs THEN <<>>
                ELSE IF Head(cs) \in { <<>>, <<Dot>> } THEN Walk(at, Tail(cs))
                ELSE IF Head(cs) = Up THEN Walk(IF at = <<>> THEN at ELSE SubSeq(at, 1, Len(at) - 1), Tail(cs))
                ELSE Walk(Append(at, Head(cs)), Tail(cs))
Init == u = <<>>
Add == \E x \in Pieces : Len(u) < MaxPieces /\ u' = Append(u, x)
Next == Add
Spec == Init /\ [][Next]_vars
Addr == Flat(u)
Answer == Page(Inside, Addr)
Decoded == Decode(Addr, 1, <<>>)
Path == IF Decoded.p # <<>> /\ LastOf(Decoded.p) = Slash THEN Decoded.p \o IndexHtml ELSE Decoded.p
Real == Walk(Root, Split(Path, Slash))
Contained == Answer.status = 200 => Answer.content \in {<<1>>, <<2>>, <<3>>}
Right == Answer.status = 200 => Answer.content = Real
Complete == (Answer.status = 404 => Real = <<>>)
\* an answer that could have left the root is always a refusal
Escapes == (Decoded.ok /\ Real \in {<<4>>, <<5>>, <<6>>, <<7>>} /\ Decoded.p # <<>> /\ Decoded.p[1] = Slash) => Answer.status = 400
Printed == (Emit /\ u # <<>>) => PrintT("SCRIPT " \o ToJson(Addr))
=============================================================================
