------------------------------- MODULE Tables -------------------------------
(* What a data table says (P11): its cells, at the labels of its rows and
   columns, after selecting, dropping and adding dimensions.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[k] : k \in 1..Len(s)}
Has(f, k) == k \in DOMAIN f
Pos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Proj(i, D) == [d \in DOMAIN i \cap D |-> i[d]]
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
None == "~"
Core == {"nodes", "techs", "carriers"}

(***** one data table *****)
\* the position of a cell names one item per row and column dimension
Names(t) == t.rows \o t.cols
Label(t, c) == [d \in Rng(Names(t)) |-> c.at[Pos(Names(t), d)]]
\* names in the file, once renamed, are those of the definition (files may leave them out)
Renamed(t, n) == IF \E m \in Rng(t.rename) : m[1] = n THEN (CHOOSE m \in Rng(t.rename) : m[1] = n)[2] ELSE n
NamesOk(t) == \A k \in 1..Len(Names(t)) : t.names[k] \in {"", Names(t)[k]} \/ Renamed(t, t.names[k]) = Names(t)[k]
\* 1. selecting
Picked(t) ==
  {k \in 1..Len(t.cells) :
     \A s \in Rng(t.select) : Has(Label(t, t.cells[k]), s[1]) => Label(t, t.cells[k])[s[1]] \in Rng(s[2])}
Selected(t) == {k \in Picked(t) : t.cells[k].v # None}
\* selecting what is not there may be refused
Dubious(t) == \E s \in Rng(t.select) : \E x \in Rng(s[2]) : \A k \in 1..Len(t.cells) : t.cells[k].v = None \/ (Has(Label(t, t.cells[k]), s[1]) /\ Label(t, t.cells[k])[s[1]] # x)
Kept(t, k) == LET l == Label(t, t.cells[k]) IN Proj(l, DOMAIN l \ Rng(t.drop))
\* .. and so may several values for one place if some are missing
Twice(t) == \E k, l \in Picked(t) : k # l /\ Kept(t, k) = Kept(t, l) /\ t.cells[k].v = None
\* 2. dropping, 3. adding
RECURSIVE Adds(_)
Adds(as) == IF as = <<>> THEN {[x \in {} |-> ""]}
            ELSE {Join(f, [d \in {as[1][1]} |-> x]) : f \in Adds(Tail(as)), x \in Rng(as[1][2])}
Dims(t) == (Rng(Names(t)) \ Rng(t.drop)) \cup {a[1] : a \in Rng(t.add)}
Protected == {"active", "definition_matrix", "template", "templates"}
Entries(t) == {<<Join(Kept(t, k), a), t.cells[k].v>> : k \in Selected(t), a \in Adds(t.add)}
TableOk(t) ==
  /\ NamesOk(t)
  /\ "inputs" \in Dims(t)
  /\ \A k, l \in Selected(t) : k # l => Kept(t, k) # Kept(t, l)           \* no two values for one place
  /\ \A e \in Entries(t) : e[1]["inputs"] \notin Protected
\* what a table says about the array p
FromTable(t, p) ==
  LET E == {e \in Entries(t) : e[1]["inputs"] = p}
      idx(e) == Proj(e[1], DOMAIN e[1] \ {"inputs"})
  IN [dims |-> IF E = {} THEN {} ELSE Dims(t) \ {"inputs"}, vals |-> [i \in {idx(e) : e \in E} |-> (CHOOSE e \in E : idx(e) = i)[2]]]

=============================================================================
