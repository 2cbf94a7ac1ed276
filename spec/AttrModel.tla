----------------------------- MODULE AttrModel -----------------------------
(* Items as the implementation stores them: one registry of attribute names, shared by all items
   and growing in the order names are first set; every item has a row of cells as long as the
   highest position it ever set, cells not set being empty.  Checked against AttrOps: reading,
   listing, equality and the string that is hashed depend only on the attributes, never on the
   order of registration. *)
EXTENDS AttrOps, Json
CONSTANTS Names, Values, MaxItems, MaxOps, Emit
ModelValues == {Sym("x"), Sym(""), No, AnyV, Num("1")}
VARIABLES reg,    \* sequence of registered names
          row,    \* per item: sequence of cells; a cell is [v |-> value, p |-> present]
          items,  \* the meaning (AttrOps)
          hist
vars == <<reg, row, items, hist>>
Empty == [v |-> No, p |-> FALSE]
Ix(r, n) == CHOOSE i \in DOMAIN r : r[i] = n
Padded(cells, k) == [i \in 1..(IF Len(cells) > k THEN Len(cells) ELSE k) |->
                       IF i <= Len(cells) THEN cells[i] ELSE Empty]
Put(r, cells, n, v) == [Padded(cells, Ix(r, n)) EXCEPT ![Ix(r, n)] = [v |-> v, p |-> TRUE]]
Op(v) == CASE v.k = "sym" -> [how |-> "symbol", v |-> v.t, num |-> ""]
           [] v.k = "int" -> [how |-> "int", v |-> v.t, num |-> v.t]
           [] OTHER -> [how |-> "bool", v |-> IF v.k = "any" THEN "true" ELSE "false", num |-> ""]
SetAttr == \E i \in DOMAIN items, n \in Names, v \in Values :
    LET r2 == IF n \in Range(reg) THEN reg ELSE Append(reg, n) IN
    /\ reg' = r2
    /\ row' = [row EXCEPT ![i] = Put(r2, @, n, v)]
    /\ items' = [items EXCEPT ![i] = Set(@, n, v)]
    /\ hist' = Append(hist, [op |-> "set", i |-> i, name |-> n] @@ Op(v))
AddValues == \E i, j \in DOMAIN items : i # j /\
    /\ row' = [row EXCEPT ![i] = FoldLeft(LAMBDA c, k : IF row[j][k].p THEN Put(reg, c, reg[k], row[j][k].v) ELSE c,
                                          row[i], [k \in 1..Len(row[j]) |-> k])]
    /\ items' = [items EXCEPT ![i] = AddAll(@, items[j])]
    /\ hist' = Append(hist, [op |-> "addvalues", i |-> i, j |-> j])
    /\ UNCHANGED reg
Copy == \E i \in DOMAIN items :
    /\ Len(items) < MaxItems
    /\ row' = Append(row, row[i]) /\ items' = Append(items, items[i])
    /\ hist' = Append(hist, [op |-> "copy", i |-> i])
    /\ UNCHANGED reg
Init == /\ reg = <<>> /\ row = <<<<>>, <<>>>>
        /\ items = <<Item("T", "x"), Item("T", "x")>>
        /\ hist = <<[op |-> "reset"], [op |-> "new", c |-> "T", x |-> "x", src |-> "own"],
                    [op |-> "new", c |-> "T", x |-> "x", src |-> "text"]>>
Next == Len(hist) < MaxOps + 3 /\ (SetAttr \/ AddValues \/ Copy)
Spec == Init /\ [][Next]_vars
View == <<reg, row, items, Len(hist)>>
Printed == (Emit /\ Len(hist) = MaxOps + 3) => PrintT("SCRIPT " \o ToJson(hist))

\* ---- what the implementation computes from rows
Cell(c, k) == IF k <= Len(c) THEN c[k].v ELSE No
RowEqual(c, d) == \A k \in 1..(IF Len(c) > Len(d) THEN Len(c) ELSE Len(d)) : Cell(c, k) = Cell(d, k)
Hashed(c) == FoldLeft(LAMBDA acc, x : IF x.v = No THEN acc ELSE acc \o <<x.v.t>>, <<>>, c)
ReadsBack == \A i \in DOMAIN items : \A n \in Names :
    LET v == IF n \in Range(reg) THEN Cell(row[i], Ix(reg, n)) ELSE No IN v = Value(items[i], n)
Listing == \A i \in DOMAIN items : { reg[k] : k \in { k \in DOMAIN row[i] : row[i][k].p } } = DOMAIN items[i].a
EqualityIsMeaning == \A i, j \in DOMAIN items : RowEqual(row[i], row[j]) = Equal(items[i], items[j])
HashFollows == \A i, j \in DOMAIN items : RowEqual(row[i], row[j]) => Hashed(row[i]) = Hashed(row[j])
Independent == [][ \A i \in DOMAIN items : LET op == hist'[Len(hist')] IN
                    (op.op \in {"set", "addvalues"} /\ op.i # i) => items'[i] = items[i] /\ row'[i] = row[i] ]_vars
=============================================================================
