------------------------------- MODULE Inputs -------------------------------
(* From a model definition and data tables to model inputs (P11, P12).
   A record r: dims (dimension -> items), params (declared arrays: name, bool),
     tables  (what every table contains and how it is to be read),
     techs / nodes / defs (the YAML definition), obs (what was built).
   Values are canonical strings, "~" is a missing value.                      *)
EXTENDS Tables, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)

(***** the definition: which technology is where *****)
Tech(r, t) == CHOOSE x \in Rng(r.techs) : x.name = t
TechNames(r) == {x.name : x \in Rng(r.techs)}
NodeNames(r) == {x.name : x \in Rng(r.nodes)}
Node(r, n) == CHOOSE x \in Rng(r.nodes) : x.name = n
\* a table with values over nodes and technologies says that these technologies are at these nodes
Tabled(r) == UNION {{<<e[1]["nodes"], e[1]["techs"]>> : e \in {f \in Entries(r.tables[k]) : {"nodes", "techs"} \subseteq DOMAIN f[1]}} : k \in 1..Len(r.tables)}
\* nodes may be known from tables only
TabledNodes(r) == UNION {{e[1]["nodes"] : e \in {f \in Entries(r.tables[k]) : "nodes" \in DOMAIN f[1]}} : k \in 1..Len(r.tables)}
InYaml(r) == UNION {{<<n.name, x.name>> : x \in Rng(n.techs)} : n \in Rng(r.nodes)}
At(r, n, t) == CHOOSE x \in Rng(Node(r, n).techs) : x.name = t
NodeActive(r, n) == IF n \in NodeNames(r) THEN Node(r, n).active ELSE n \in TabledNodes(r)
Links(r) == {x \in Rng(r.techs) : x.base = "transmission" /\ x.active /\ NodeActive(r, x.from) /\ NodeActive(r, x.to)}
Combos(r) ==
  {x \in InYaml(r) \cup Tabled(r) : NodeActive(r, x[1]) /\ x[2] \in TechNames(r) /\ Tech(r, x[2]).active /\ (x \in InYaml(r) => At(r, x[1], x[2]).active)}
  \cup UNION {{<<l.from, l.name>>, <<l.to, l.name>>} : l \in Links(r)}
\* settings of a technology at a node come before those of the technology
Flow(r, n, t, io) ==
  LET x == Tech(r, t) IN
  IF x.base = "transmission" THEN (IF x.oneway /\ ((io = "in" /\ n = x.to) \/ (io = "out" /\ n = x.from)) THEN {} ELSE Rng(x[io]))
  ELSE IF <<n, t>> \in InYaml(r) /\ Has(At(r, n, t), io) THEN Rng(At(r, n, t)[io]) ELSE Rng(x[io])
Flows(r) == UNION {{<<x[1], x[2], c, io>> : c \in Flow(r, x[1], x[2], io)} : x \in Combos(r), io \in {"in", "out"}}
Exists(r) == {<<f[1], f[2], f[3]>> : f \in Flows(r)}

(***** the values, from the first to the last source *****)
ParamOf(ps, p) == CHOOSE q \in Rng(ps) : q.name = p
Gives(ps, p) == \E q \in Rng(ps) : q.name = p
\* data with explicit index: one value per place, or one value for all places
Cells(q) == [k \in 1..Len(q.cells) |-> <<[d \in Rng(q.dims) |-> q.cells[k].at[Pos(q.dims, d)]], q.cells[k].v>>]
Data(q) == LET C == Rng(Cells(q)) IN [dims |-> Rng(q.dims), vals |-> [i \in {c[1] : c \in C} |-> (CHOOSE c \in C : c[1] = i)[2]]]
\* the YAML value at a technology and node
YamlAt(r, p, n, t) ==
  IF <<n, t>> \in InYaml(r) /\ Gives(At(r, n, t).params, p) THEN Data(ParamOf(At(r, n, t).params, p))
  ELSE IF Gives(Tech(r, t).params, p) THEN Data(ParamOf(Tech(r, t).params, p))
  ELSE [dims |-> {}, vals |-> [x \in {} |-> None]]
FromYamlTechs(r, p) ==
  LET C == {x \in Combos(r) : DOMAIN YamlAt(r, p, x[1], x[2]).vals # {}}
      B(x) == [nodes |-> x[1], techs |-> x[2]]
      I == UNION {{Join(B(x), i) : i \in DOMAIN YamlAt(r, p, x[1], x[2]).vals} : x \in C}
  IN [dims |-> UNION {DOMAIN i : i \in I}, vals |-> [i \in I |-> LET y == YamlAt(r, p, i["nodes"], i["techs"]).vals IN y[Proj(i, DOMAIN i \ {"nodes", "techs"})]]]
FromYamlNodes(r, p) ==
  LET C == {n \in Rng(r.nodes) : n.active /\ Gives(n.params, p)}
      I == UNION {{Join([nodes |-> n.name], i) : i \in DOMAIN Data(ParamOf(n.params, p)).vals} : n \in C}
  IN [dims |-> UNION {DOMAIN i : i \in I}, vals |-> [i \in I |-> Data(ParamOf(Node(r, i["nodes"]).params, p)).vals[Proj(i, DOMAIN i \ {"nodes"})]]]
FromDef(r, k, p) == IF r.defs[k].name = p THEN Data(r.defs[k]) ELSE [dims |-> {}, vals |-> [x \in {} |-> None]]
Sources(r, p) ==
  [k \in 1..Len(r.tables) |-> FromTable(r.tables[k], p)] \o <<FromYamlTechs(r, p), FromYamlNodes(r, p)>> \o [k \in 1..Len(r.defs) |-> FromDef(r, k, p)]
\* a value without a dimension is for all its items; the last source that has a value wins
RECURSIVE Value(_, _)
Value(ss, i) ==
  IF ss = <<>> THEN None
  ELSE LET s == ss[Len(ss)] j == Proj(i, s.dims) IN
       IF j \in DOMAIN s.vals /\ s.vals[j] # None THEN s.vals[j] ELSE Value(SubSeq(ss, 1, Len(ss) - 1), i)

(***** what was observed *****)
RECURSIVE KeyOf(_, _)
KeyOf(ds, i) == IF ds = <<>> THEN "" ELSE IF Len(ds) = 1 THEN i[ds[1]] ELSE i[ds[1]] \o "|" \o KeyOf(Tail(ds), i)
Got(r, p, i) ==
  IF ~Has(r.obs.inputs, p) THEN None
  ELSE LET a == r.obs.inputs[p] k == KeyOf(a.dims, i) IN IF k \in DOMAIN a.vals THEN a.vals[k] ELSE None
GotDims(r, p) == IF Has(r.obs.inputs, p) THEN Rng(r.obs.inputs[p].dims) ELSE {}
RECURSIVE Spread(_, _, _)
Spread(r, ds, I) == IF ds = {} THEN I ELSE LET d == CHOOSE x \in ds : TRUE IN Spread(r, ds \ {d}, {Join(i, [e \in {d} |-> x]) : i \in I, x \in Rng(r.dims[d])})
ParamOk(r, q, ex) ==
  LET ss == TLCEval(Sources(r, q.name))
      D == GotDims(r, q.name) \cup UNION {ss[k].dims : k \in 1..Len(ss)}
      base == {Proj([nodes |-> e[1], techs |-> e[2], carriers |-> e[3]], D) : e \in ex}
      soft(v) == IF q.bool /\ v = None THEN "False" ELSE v
  IN \A i \in Spread(r, D \ Core, base) : soft(Value(ss, i)) = soft(Got(r, q.name, i))

\* things that cannot be
Lawful(r) ==
  /\ \A k \in 1..Len(r.tables) : TableOk(r.tables[k])
  /\ \A x \in InYaml(r) : NodeActive(r, x[1]) => x[2] \in TechNames(r)
  /\ \A x \in InYaml(r) \cup Tabled(r) : x[2] \in TechNames(r) /\ NodeActive(r, x[1]) /\ Tech(r, x[2]).active /\ (x \in InYaml(r) => At(r, x[1], x[2]).active) => Tech(r, x[2]).base # "transmission"
  /\ \A n \in Rng(r.nodes) : n.active => \A x \in Rng(n.techs) : x.active => ~x.rebase
  /\ \A k \in 1..Len(r.defs) : r.defs[k].fits
\* whether a node that tables name without any value is there remains open
Murky(r) == \E k \in 1..Len(r.tables) : "nodes" \in Rng(Names(r.tables[k])) /\ \E c \in Rng(r.tables[k].cells) :
  LET n == Label(r.tables[k], c)["nodes"] IN n \notin NodeNames(r) \cup TabledNodes(r) /\ \E x \in Rng(r.techs) : x.base = "transmission" /\ n \in {x.from, x.to}
Fails(r) ==
  IF Murky(r) THEN {} ELSE
  LET ex == TLCEval(Exists(r)) fl == Flows(r) IN
  IF ~Lawful(r) THEN (IF r.obs.ok THEN {"Refused"} ELSE {})
  \* a model needs some inflow and some outflow
  ELSE IF ~r.obs.ok THEN (IF (\A k \in 1..Len(r.tables) : ~Dubious(r.tables[k]) /\ ~Twice(r.tables[k])) /\ \A io \in {"in", "out"} : \E f \in fl : f[4] = io THEN {"Accepted"} ELSE {})
  ELSE (IF {<<e[1], e[2], e[3]>> : e \in Rng(r.obs.matrix)} = ex THEN {} ELSE {"ExactlyTheActiveCombinations"})
  \cup (IF Rng(r.obs.flows) = fl THEN {} ELSE {"CarriersInAndOut"})
  \cup (IF Rng(r.obs.nodes) = {e[1] : e \in ex} /\ Rng(r.obs.techs) = {e[2] : e \in ex} /\ Rng(r.obs.carriers) = {e[3] : e \in ex} THEN {} ELSE {"NothingElse"})
  \cup UNION {IF ParamOk(r, q, ex) THEN {} ELSE {"Value_" \o q.name} : q \in Rng(r.params)}
  \cup (IF r.obs.unaltered THEN {} ELSE {"GivenDataUnaltered"})

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
