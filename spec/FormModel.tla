----------------------------- MODULE FormModel -----------------------------
(* Forms as clients write them: every small list of fields, written URL-encoded (any byte escaped or
   not, where it may stay) or as multipart data, is read back as exactly these fields. *)
EXTENDS SiteOps, Json
CONSTANTS MaxFields, MaxLen, Emit
VARIABLES fields, how
vars == <<fields, how>>
Names == { <<107>>, <<117, 112>> }
Bytes == { 97, 32, 43, 38, 61, 37, 13, 10, 45, 255 }
Values == UNION { [1..n -> Bytes] : n \in 0..MaxLen }
FileName == <<97, 46, 116, 120, 116>>
Hows == { "get", "post", "escaped", "multi", "dashes" }
Digit16(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Escape(c) == <<37, Digit16(c \div 16), Digit16(c % 16)>>
MayStay(c) == c \notin {43, 38, 37, 13, 10, 32}
EncByte(c, all) == IF c = 32 /\ ~all THEN <<43>> ELSE IF MayStay(c) /\ ~all THEN <<c>> ELSE Escape(c)
EncValue(v, all) == Flat([i \in DOMAIN v |-> EncByte(v[i], all)])
Url(fs, all) == Flat([i \in DOMAIN fs |-> (IF i = 1 THEN <<>> ELSE <<38>>) \o fs[i].k \o <<61>> \o EncValue(fs[i].v, all)])
Bnd(h) == IF h = "dashes" THEN <<45, 45>> ELSE <<88, 89, 90>>
Multi(fs, h) == Flat([i \in DOMAIN fs |-> <<45, 45>> \o Bnd(h) \o CRLF \o <<67, 111, 110, 116, 101, 110, 116, 45, 68, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110, 58, 32, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 110, 97, 109, 101, 61, 34>> \o fs[i].k \o <<34>>
                        \o (IF fs[i].file THEN <<59, 32, 102, 105, 108, 101, 110, 97, 109, 101, 61, 34>> \o FileName \o <<34>> ELSE <<>>) \o CRLF \o CRLF \o fs[i].v \o CRLF])
                \o <<45, 45>> \o Bnd(h) \o <<45, 45>> \o CRLF
CType(h) == IF h \in {"multi", "dashes"} THEN <<109, 117, 108, 116, 105, 112, 97, 114, 116, 47, 102, 111, 114, 109, 45, 100, 97, 116, 97, 59, 32, 98, 111, 117, 110, 100, 97, 114, 121, 61>> \o Bnd(h) ELSE <<>>
Body == IF how \in {"multi", "dashes"} THEN Multi(fields, how) ELSE Url(fields, how = "escaped")
M == IF how = "get" THEN <<71, 69, 84>> ELSE POST
Addr == IF how = "get" THEN <<47, 112, 97, 117, 115, 101, 46, 112, 115, 105, 115, 63>> \o Body ELSE <<47, 112, 97, 117, 115, 101, 46, 112, 115, 105, 115>>
\* the delimiter may not show in the data itself
Writable(fs, h) == h \in {"multi", "dashes"} =>
    \A i \in DOMAIN fs : Find(fs[i].v \o CRLF \o <<45, 45>> \o Bnd(h), <<45, 45>> \o Bnd(h), 1) = Len(fs[i].v) + 3
Init == /\ how \in Hows /\ fields = <<>>
Add == \E n \in Names, v \in Values, f \in BOOLEAN :
    /\ Len(fields) < MaxFields /\ (how \notin {"multi", "dashes"} => ~f)
    /\ Writable(Append(fields, [k |-> n, v |-> v, file |-> f]), how)
    /\ fields' = Append(fields, [k |-> n, v |-> v, file |-> f]) /\ UNCHANGED how
Next == Add
Spec == Init /\ [][Next]_vars
Meant == Flat([i \in DOMAIN fields |-> IF fields[i].file THEN << [k |-> fields[i].k \o FilenameOf, v |-> FileName], [k |-> fields[i].k, v |-> fields[i].v] >>
                                       ELSE << [k |-> fields[i].k, v |-> fields[i].v] >>])
ReadBack == fields # <<>> => Submitted(M, Addr, CType(how), IF how = "get" THEN <<>> ELSE Body) = Meant
Printed == (Emit /\ fields # <<>>) => PrintT("SCRIPT " \o ToJson([get |-> how = "get", body |-> Body, ctype |-> CType(how)]))
=============================================================================
