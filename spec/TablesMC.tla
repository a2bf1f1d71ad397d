------------------------------ MODULE TablesMC ------------------------------
(* The same data in every layout: explored exhaustively; all layouts say the
   same (Same), and each of them is loaded by the implementation.            *)
EXTENDS Tables, Json
VARIABLES rows, cols, junk, add, sel
vars == <<rows, cols, junk, add, sel>>
Items == [inputs |-> <<"p0", "b0">>, nodes |-> <<"a", "b">>, techs |-> <<"s", "d">>, junk |-> <<"j1", "j2">>]
V == [a |-> [s |-> [p0 |-> "3", b0 |-> "True"], d |-> [p0 |-> "2.5", b0 |-> "False"]],
      b |-> [s |-> [p0 |-> "~", b0 |-> "False"], d |-> [p0 |-> "-1", b0 |-> "~"]]]
\* the rows of the dropped dimension that are not selected hold other values
Val(l) == LET v == V[l["nodes"]][l["techs"]][l["inputs"]] IN
          IF "junk" \in DOMAIN l /\ l["junk"] = "j2" THEN (IF l["inputs"] = "b0" THEN (IF v = "True" THEN "False" ELSE "True") ELSE "7") ELSE v
RECURSIVE Prod(_)
Prod(ds) == IF ds = <<>> THEN <<(<<>>)>>
            ELSE LET t == Prod(Tail(ds)) I == Items[ds[1]] n == Len(t) IN [k \in 1..(Len(I) * n) |-> <<I[((k - 1) \div n) + 1]>> \o t[((k - 1) % n) + 1]]
Table ==
  LET ds == rows \o cols P == Prod(ds) IN
  [rows |-> rows, cols |-> cols, names |-> ds,
   cells |-> [k \in 1..Len(P) |-> [at |-> P[k], v |-> Val([d \in Rng(ds) |-> P[k][Pos(ds, d)]])]],
   select |-> (IF junk THEN <<<<"junk", <<"j1">>>>>> ELSE <<>>) \o (IF sel THEN <<<<"nodes", <<"b", "a">>>>, <<"inputs", <<"p0", "b0">>>>>> ELSE <<>>),
   drop |-> IF junk THEN <<"junk">> ELSE <<>>, add |-> IF add THEN <<<<"g", <<"g1", "g2">>>>>> ELSE <<>>, rename |-> <<>>]
Emit == PrintT(ToJson([rows |-> rows, cols |-> cols, junk |-> junk, add |-> add, sel |-> sel, table |-> Table]))
Init == rows = <<"inputs", "nodes", "techs">> /\ cols = <<>> /\ junk = FALSE /\ add = FALSE /\ sel = FALSE
Flip == rows # <<>> /\ rows' = SubSeq(rows, 1, Len(rows) - 1) /\ cols' = <<rows[Len(rows)]>> \o cols /\ UNCHANGED <<junk, add, sel>>
Back == cols # <<>> /\ cols' = Tail(cols) /\ rows' = Append(rows, cols[1]) /\ UNCHANGED <<junk, add, sel>>
Turn == Len(rows) > 1 /\ rows' = Append(Tail(rows), rows[1]) /\ UNCHANGED <<cols, junk, add, sel>>
Swap == Len(rows) > 1 /\ rows' = <<rows[2], rows[1]>> \o SubSeq(rows, 3, Len(rows)) /\ UNCHANGED <<cols, junk, add, sel>>
Junk == ~junk /\ junk' = TRUE /\ rows' = Append(rows, "junk") /\ UNCHANGED <<cols, add, sel>>
Add == ~add /\ add' = TRUE /\ UNCHANGED <<rows, cols, junk, sel>>
Sel == ~sel /\ sel' = TRUE /\ UNCHANGED <<rows, cols, junk, add>>
Next == Flip \/ Back \/ Turn \/ Swap \/ Junk \/ Add \/ Sel
Spec == Init /\ [][Next]_vars
\* laws
Want == {<<Join([inputs |-> p, nodes |-> n, techs |-> t], x), V[n][t][p]>> : p \in {"p0", "b0"}, n \in {"a", "b"}, t \in {"s", "d"}, x \in IF add THEN {[g |-> "g1"], [g |-> "g2"]} ELSE {[z \in {} |-> ""]}}
Same == Entries(Table) = {e \in Want : e[2] # "~"} /\ TableOk(Table)
Emitted == Emit
=============================================================================
