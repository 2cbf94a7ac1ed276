------------------------------ MODULE SiteOps ------------------------------
(* What the web server answers to the address of a page.  Bytes are numbers 0..255.
   A site is a set of files below the document root (each named by its sequence of path
   components), generators of included text and actions (both named by byte strings). *)
EXTENDS HttpOps

Hex(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> -1
\* + is a blank, %XY the byte written in hexadecimal; anything else after % and the NUL byte are refused
RECURSIVE Unescape(_, _, _, _)
Unescape(u, i, acc, nul) ==
    IF i > Len(u) THEN [ok |-> TRUE, p |-> acc]
    ELSE IF u[i] = 43 THEN Unescape(u, i + 1, Append(acc, 32), nul)
    ELSE IF u[i] # 37 THEN Unescape(u, i + 1, Append(acc, u[i]), nul)
    ELSE IF i + 2 > Len(u) \/ Hex(u[i + 1]) < 0 \/ Hex(u[i + 2]) < 0 \/ (~nul /\ Hex(u[i + 1]) + Hex(u[i + 2]) = 0) THEN [ok |-> FALSE, p |-> <<>>]
    ELSE Unescape(u, i + 3, Append(acc, 16 * Hex(u[i + 1]) + Hex(u[i + 2])), nul)
Decode(u, i, acc) == Unescape(u, i, acc, FALSE)

Split(p, c) == FoldLeft(LAMBDA a, x : IF x = c THEN Append(a, <<>>) ELSE [a EXCEPT ![Len(a)] = Append(@, x)], << <<>> >>, p)
Slash == 47
Dot == 46
LastOf(s) == s[Len(s)]
Places(p, c) == { i \in DOMAIN p : p[i] = c }
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Components(p) == SelectSeq(Split(p, Slash), LAMBDA x : x # <<>> /\ x # <<Dot>>)
TwoDots(p) == \E i \in 1..(Len(p) - 1) : p[i] = Dot /\ p[i + 1] = Dot
IndexHtml == <<105, 110, 100, 101, 120, 46, 104, 116, 109, 108>>
\* does pat occur in s at position i; first occurrence at or after i (0 if there is none)
At(s, pat, i) == i + Len(pat) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(pat) - 1) = pat
RECURSIVE Find(_, _, _)
Find(s, pat, i) == IF i + Len(pat) - 1 > Len(s) THEN 0 ELSE IF s[i] = pat[1] /\ At(s, pat, i) THEN i ELSE Find(s, pat, i + 1)

Refused == [status |-> 400, content |-> <<60, 104, 116, 109, 108, 62, 60, 104, 101, 97, 100, 62, 60, 116, 105, 116, 108, 101, 62, 66, 97, 100, 32, 82, 101, 113, 117, 101, 115, 116, 60, 47, 116, 105, 116, 108, 101, 62, 60, 47, 104, 101, 97, 100, 62, 60, 98, 111, 100, 121, 62, 60, 104, 49, 62, 52, 48, 48, 32, 66, 97, 100, 32, 82, 101, 113, 117, 101, 115, 116, 60, 47, 104, 49, 62, 60, 47, 98, 111, 100, 121, 62, 60, 47, 104, 116, 109, 108, 62>>]
Missing == [status |-> 404, content |-> <<60, 104, 116, 109, 108, 62, 60, 104, 101, 97, 100, 62, 60, 116, 105, 116, 108, 101, 62, 78, 111, 116, 32, 70, 111, 117, 110, 100, 60, 47, 116, 105, 116, 108, 101, 62, 60, 47, 104, 101, 97, 100, 62, 60, 98, 111, 100, 121, 62, 60, 104, 49, 62, 52, 48, 52, 32, 78, 111, 116, 32, 70, 111, 117, 110, 100, 60, 47, 104, 49, 62, 60, 47, 98, 111, 100, 121, 62, 60, 47, 104, 116, 109, 108, 62>>]
Ext(p) == LET d == Places(p, Dot) s == Places(p, Slash) \cup {0}
          IN  IF d # {} /\ MaxOf(d) > MaxOf(s) THEN SubSeq(p, MaxOf(d) + 1, Len(p)) ELSE <<>>
BaseType(e) == CASE e = <<103, 105, 102>> -> "image/gif"
      [] e = <<104, 116, 109>> -> "text/html"
      [] e = <<104, 116, 109, 108>> -> "text/html"
      [] e = <<106, 112, 103>> -> "image/jpeg"
      [] e = <<112, 110, 103>> -> "image/png"
      [] OTHER -> "text/plain"
\* the answer for an address: nothing outside the document root is ever read
Page(files, u) ==
    LET d == Decode(u, 1, <<>>)
        q == IF d.ok /\ d.p # <<>> /\ LastOf(d.p) = Slash THEN d.p \o IndexHtml ELSE d.p
        c == Components(q)
    IN  IF ~d.ok \/ d.p = <<>> \/ d.p[1] # Slash \/ TwoDots(d.p) THEN Refused
        ELSE IF LastOf(Split(q, Slash)) = <<Dot>> \/ c \notin DOMAIN files THEN Missing
        ELSE [status |-> 200, content |-> files[c], type |-> BaseType(Ext(q))]
StatusLine(n) == CASE n = 200 -> "HTTP/1.0 200 OK" [] n = 400 -> "HTTP/1.0 400 Bad Request" [] n = 404 -> "HTTP/1.0 404 Not Found"

\* ==== pages with generated parts
NameOf(u) == LET s == Places(u, Slash) q == Places(u, 63)
             IN  IF s = {} THEN <<>>
                 ELSE IF q # {} /\ MaxOf(q) > MaxOf(s) THEN SubSeq(u, MaxOf(s) + 1, MaxOf(q) - 1)
                 ELSE SubSeq(u, MaxOf(s) + 1, Len(u))
PsiTypeOfExt(e) == CASE e = <<104, 116, 109>> -> "text/html"
      [] e = <<104, 116, 109, 108>> -> "text/html"
      [] e = <<115, 104, 116, 109, 108>> -> "text/html"
      [] e = <<99, 115, 115>> -> "text/css"
      [] e = <<106, 115>> -> "application/javascript"
      [] e = <<112, 100, 102>> -> "application/pdf"
      [] e = <<112, 115>> -> "application/postscript"
      [] e = <<101, 112, 115>> -> "application/postscript"
      [] e = <<97, 105>> -> "application/postscript"
      [] e = <<100, 111, 99>> -> "application/msword"
      [] e = <<120, 100, 111, 99>> -> "application/msword"
      [] e = <<114, 116, 102>> -> "application/rtf"
      [] e = <<122, 105, 112>> -> "application/zip"
      [] e = <<106, 112, 103>> -> "image/jpeg"
      [] e = <<106, 112, 101, 103>> -> "image/jpeg"
      [] e = <<106, 112, 101>> -> "image/jpeg"
      [] e = <<112, 110, 103>> -> "image/png"
      [] e = <<103, 105, 102>> -> "image/gif"
      [] e = <<116, 105, 102, 102>> -> "image/tiff"
      [] e = <<116, 105, 102>> -> "image/tif"
      [] OTHER -> "text/html"
PsiType(u) == (IF NameOf(u) = <<106, 115, 111, 110, 46, 112, 115, 105, 115>> THEN "text/javascript" ELSE PsiTypeOfExt(Ext(NameOf(u)))) \o ";charset=UTF-8"
Mark == <<60, 33, 45, 45, 35, 112, 115, 105, 115>>
MarkEnd == <<45, 45, 62>>
\* <!--#psis CODE --> is replaced by the text generated for CODE (by nothing if there is no such
\* generator); generated text is not searched again
RECURSIVE Expand(_, _, _)
Expand(s, gens, i) ==
    LET p == Find(s, Mark, i) e == IF p = 0 THEN 0 ELSE Find(s, MarkEnd, p)
    IN  IF p = 0 \/ e = 0 THEN SubSeq(s, i, Len(s))
        ELSE LET code == SubSeq(s, p + 10, e - 2)
             IN  SubSeq(s, i, p - 1) \o (IF code \in DOMAIN gens THEN gens[code] ELSE <<>>) \o Expand(s, gens, e + 3)
\* an address that names a registered action is answered with the page the action names
Psis == <<46, 112, 115, 105, 115>>
ActionEnd(m, u) == IF m = POST THEN Find(u, Psis, 1) ELSE Find(u, Psis \o <<63>>, 1)
ActionOf(m, u) == LET q == ActionEnd(m, u) IN IF q = 0 THEN <<>> ELSE SubSeq(u, 2, q - 1)
Target(acts, m, u) == IF ActionEnd(m, u) # 0 /\ ActionOf(m, u) \in DOMAIN acts THEN acts[ActionOf(m, u)] ELSE u
PsiPage(site, m, u) ==
    LET a == Page(site.files, Target(site.acts, m, u))
    IN  [status |-> a.status, content |-> Expand(a.content, site.gens, 1), type |-> PsiType(u)]

\* ==== forms
PairOf(s) == LET q == Places(s, 61) IN
             IF q = {} THEN [k |-> s, v |-> <<>>]
             ELSE LET e == CHOOSE x \in q : \A y \in q : x <= y
                  IN  [k |-> SubSeq(s, 1, e - 1), v |-> Unescape(SubSeq(s, e + 1, Len(s)), 1, <<>>, TRUE).p]
UrlPairs(b) == LET ss == Split(b, 38) IN [i \in DOMAIN ss |-> PairOf(ss[i])]
FormData == <<109, 117, 108, 116, 105, 112, 97, 114, 116, 47, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59>>
BoundaryIs == <<98, 111, 117, 110, 100, 97, 114, 121, 61>>
Boundary(ctype) == <<45, 45>> \o SubSeq(ctype, Find(ctype, BoundaryIs, 1) + 9, Len(ctype))
CRLF == <<CR, LF>>
NameIs == <<110, 97, 109, 101, 61, 34>>
FileIs == <<102, 105, 108, 101, 110, 97, 109, 101, 61, 34>>
FilenameOf == <<45, 102, 105, 108, 101, 110, 97, 109, 101>>
Quoted(h, pat) == LET i == Find(h, pat, 1) IN SubSeq(h, i + Len(pat), Find(h, <<34>>, i + Len(pat)) - 1)
PartPairs(s) ==       \* s = CRLF headers CRLF CRLF content CRLF
    LET e == Find(s, CRLF \o CRLF, 1)
        h == SubSeq(s, 1, e - 1) n == Quoted(h, NameIs) c == SubSeq(s, e + 4, Len(s) - 2)
    IN  IF Find(h, FileIs, 1) = 0 THEN << [k |-> n, v |-> c] >>
        ELSE << [k |-> n \o FilenameOf, v |-> Quoted(h, FileIs)], [k |-> n, v |-> c] >>
RECURSIVE Parts(_, _, _)
Parts(b, d, i) ==     \* i: just after a delimiter
    LET j == Find(b, d, i) IN IF j = 0 THEN <<>> ELSE PartPairs(SubSeq(b, i, j - 1)) \o Parts(b, d, j + Len(d))
MultiPairs(b, ctype) == LET d == Boundary(ctype) i == Find(b, d, 1) IN IF i = 0 THEN <<>> ELSE Parts(b, d, i + Len(d))
\* the pairs a request submits to an action
Submitted(m, u, ctype, body) ==
    IF StartsWith(ctype, FormData) THEN MultiPairs(body, ctype)
    ELSE UrlPairs(IF m = POST THEN body ELSE SubSeq(u, ActionEnd(m, u) + 6, Len(u)))
=============================================================================
