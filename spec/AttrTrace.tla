----------------------------- MODULE AttrTrace -----------------------------
(* Validates traces of real AnnotationItems sharing one AnnotationItemManager
   (drivers/attr_driver.cpp): after every call the complete observable state of every item, and
   the equality and hash relation between all items, is compared with the specification. *)
EXTENDS AttrOps, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, items
vars == <<l, items>>
Ev == Trace[l]
Mismatch(what, exp, obs) == PrintT(<<"MISMATCH", l, what, "expected", exp, "observed", obs>>) /\ FALSE
Check(cond, what, exp, obs) == IF cond THEN TRUE ELSE Mismatch(what, exp, obs)

Val(e) == CASE e.how = "text" -> Meaning(e.v, e.num)
            [] e.how = "symbol" -> Sym(e.v)
            [] e.how = "int" -> Num(e.num)
            [] e.how = "bool" -> IF e.v = "true" THEN AnyV ELSE No
            [] e.how = "zvalue" -> Meaning(e.v, e.num)

Next1(e) ==
    CASE e.op = "reset" -> <<>>
      [] e.op = "new" -> Append(items, Item(e.c, e.x))
      [] e.op = "copy" -> Append(items, items[e.i])
      [] e.op = "recat" -> Append(items, [items[e.i] EXCEPT !.c = e.c])
      [] e.op = "retext" -> Append(items, [items[e.i] EXCEPT !.x = e.x])
      [] e.op = "recattext" -> Append(items, [items[e.i] EXCEPT !.c = e.c, !.x = e.x])
      [] e.op = "setcat" -> [items EXCEPT ![e.i].c = e.c]
      [] e.op = "set" -> [items EXCEPT ![e.i] = Set(@, e.name, Val(e))]
      [] e.op = "addvalues" -> [items EXCEPT ![e.i] = AddAll(@, items[e.j])]

Listed(i) == { <<n, items'[i].a[n].t>> : n \in DOMAIN items'[i].a }
ItemOK(i, o) ==
    LET it == items'[i] IN
    /\ Check(o.c = it.c, <<"category", i>>, it.c, o.c)
    /\ Check(o.x = it.x, <<"text", i>>, it.x, o.x)
    /\ Check(Len(o.list) = Cardinality(DOMAIN it.a) /\ Range(o.list) = Listed(i), <<"listing", i>>, it.a, o.list)
    /\ Check(Range(o.map) = Listed(i) /\ Len(o.map) = Len(o.list), <<"map", i>>, it.a, o.map)
    /\ \A n \in DOMAIN o.get :
         LET v == Value(it, o.get[n].n) IN
         Check(/\ o.get[n].s = v.t
               /\ o.get[n].int = (v.k = "int") /\ o.get[n].no = (v.k = "no")
               /\ o.get[n].yes = (v.k # "no") /\ o.get[n].any = (v.k = "any")
               /\ (v.k = "int" => o.get[n].num = v.t),
               <<"attribute", i, o.get[n].n>>, v, o.get[n])
Step ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ items' = Next1(Ev)
    /\ Check(Len(Ev.st) = Len(items'), "number of items", Len(items'), Len(Ev.st))
    /\ \A i \in DOMAIN items' : ItemOK(i, Ev.st[i])
    /\ \A i, j \in DOMAIN items' :
         LET eq == Equal(items'[i], items'[j]) IN
         /\ Check(Ev.eq[i][j] = eq, <<"equality", i, j>>, eq, Ev.eq[i][j])
         /\ Check(Ev.ne[i][j] = ~eq, <<"inequality", i, j>>, ~eq, Ev.ne[i][j])
         /\ Check(eq => Ev.heq[i][j], <<"hashes of equal items", i, j>>, TRUE, Ev.heq[i][j])
Init == l = 1 /\ items = <<>>
Spec == Init /\ [][Step]_vars
Accepted == IF TLCGet("stats").diameter - 1 = Len(Trace) THEN TRUE
            ELSE PrintT(<<"REJECTED-AT", TLCGet("stats").diameter>>) /\ FALSE
=============================================================================
