------------------------------ MODULE Layering ------------------------------
(***************************************************************************)
(* P01.  How a model definition is assembled from its layers:              *)
(*   initialisation arguments > override dictionary > scenario overrides   *)
(*   > base definition,                                                    *)
(* with scenario expansion.  A record is one call of the real code:        *)
(*   base, over, init : trees;  scenario : comma-separated names (<<>> if  *)
(*   none was given);  lists : <<leaf, names>> for scenario list values;   *)
(*   out : what the code returned.                                         *)
(***************************************************************************)
EXTENDS Trees, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
Range(s) == {s[i] : i \in 1..Len(s)}

Sections == {<<"overrides">>, <<"scenarios">>}
Body(t) == Without(Without(t, <<"overrides">>), <<"scenarios">>)

Names(t, sec) == {p[2] : p \in {q \in DOMAIN t : q[1] = sec /\ Len(q) >= 2}}

\* ---- scenario expansion ------------------------------------------------
ListOf(r, leaf) == LET S == {k \in 1..Len(r.lists) : r.lists[k][1] = leaf}
                   IN IF S = {} THEN <<>> ELSE r.lists[CHOOSE k \in S : TRUE][2]

RECURSIVE ExpandAll(_, _, _, _)
ExpandAll(r, t, names, fuel) ==     \* set of override names, or {"<unknown>"} in it
  UNION {IF n \in Names(t, "scenarios")
         THEN IF fuel = 0 THEN {"<unknown>"}
              ELSE ExpandAll(r, t, Range(ListOf(r, t[<<"scenarios", n>>])), fuel - 1)
         ELSE IF n \in Names(t, "overrides") THEN {n} ELSE {"<unknown>"} : n \in names}

OverrideTree(t, n) == Below(t, <<"overrides", n>>)

RECURSIVE Combine(_, _)
Combine(t, ns) == IF ns = {} THEN NoTree
                  ELSE LET n == CHOOSE x \in ns : TRUE
                       IN Overlay(Combine(t, ns \ {n}), OverrideTree(t, n))
\* A null that two overrides set where a third one sets a block has no effect in any order: whether
\* such a pair is rejected is left open.
Voided(t, ns) ==
  {p \in UNION {DOMAIN OverrideTree(t, n) : n \in ns} :
     /\ \A n \in ns : p \in DOMAIN OverrideTree(t, n) => OverrideTree(t, n)[p] = Null
     /\ \E n \in ns : \E q \in DOMAIN OverrideTree(t, n) : StrictP(p, q)}
Minus(t, ps) == [p \in DOMAIN t \ ps |-> t[p]]
CombineClash(t, ns) ==
  LET vs == Voided(t, ns) IN
  \E a, b \in ns : a # b /\ Clash(Minus(OverrideTree(t, a), vs), Minus(OverrideTree(t, b), vs))
CombineMayClash(t, ns) ==
  \E a, b \in ns : a # b /\ Clash(OverrideTree(t, a), OverrideTree(t, b))

\* ---- the expected outcome ------------------------------------------------
Base(r) == TreeOf(r.base)
Over(r) == TreeOf(r.over)
Lib(r)  == Layer(Base(r), Over(r))    \* the override dictionary may also edit the overrides/scenarios
Applied(r) == IF r.scenario = <<>> THEN {} ELSE ExpandAll(r, Lib(r), Range(r.scenario), 6)
Known(r) == "<unknown>" \notin Applied(r)
Scen(r) == Combine(Lib(r), Applied(r))

Layers(r)  == <<Scen(r), Body(Over(r)), TreeOf(r.init)>>
OneConf(r) == \/ LayerConflict(Base(r), Over(r)) /\ Names(Over(r), "overrides") # {}
              \/ StackConflict(Body(Base(r)), Layers(r))
TwoConf(r) == \/ LayerConflict(Base(r), Over(r))
              \/ StackConflict(Body(Lib(r)), Layers(r))
One(r) == Stack(Body(Base(r)), Layers(r))
Two(r) == Stack(Body(Lib(r)), Layers(r))

MustReject(r) == \/ ~Known(r)
                 \/ CombineClash(Lib(r), Applied(r))
                 \/ (OneConf(r) /\ TwoConf(r))

\* ---- comparison with what the code returned ------------------------------
Filler(p, v) == \/ v = Empty /\ Len(p) <= 2
                \/ p[Len(p)] = "active" /\ v = "b:True"
                \/ p[Len(p)] \in {"base_tech", "latitude", "longitude"} /\ v = Null
Optional(p, v) == v \in {Null, Empty} /\ (p[1] = "config" \/ Len(p) <= 2)

Agrees(exp, got) ==
  /\ \A p \in DOMAIN exp : \/ p \in DOMAIN got /\ got[p] = exp[p]
                           \/ Optional(p, exp[p]) /\ p \notin DOMAIN got
  /\ \A p \in DOMAIN got : p \in DOMAIN exp \/ Filler(p, got[p])

Diff(exp, got) ==
  {p \in DOMAIN exp : ~(p \in DOMAIN got /\ got[p] = exp[p]) /\ ~(Optional(p, exp[p]) /\ p \notin DOMAIN got)}
  \cup {p \in DOMAIN got : p \notin DOMAIN exp /\ ~Filler(p, got[p])}

Fails(r) ==
  (IF r.mutated THEN {"CallerUnchanged"} ELSE {}) \cup
  (IF ~r.repeatable THEN {"Deterministic"} ELSE {}) \cup
  (IF MustReject(r)
   THEN IF r.out.ok
        THEN IF ~Known(r) THEN {"UnknownNameRejected"}
             ELSE IF CombineClash(Lib(r), Applied(r)) THEN {"ClashRejected"} ELSE {"NestingConflictRejected"}
        ELSE {}
   ELSE IF ~r.out.ok THEN IF OneConf(r) \/ TwoConf(r) \/ CombineMayClash(Lib(r), Applied(r)) THEN {} ELSE {"Accepted"}
   ELSE LET got == TreeOf(r.out.tree) IN
        (IF (~OneConf(r) /\ Agrees(One(r), got)) \/ (~TwoConf(r) /\ Agrees(Two(r), got)) THEN {} ELSE {"LayerPrecedence"})
        \cup (IF Range(r.out.applied) = Applied(r) /\ Len(r.out.applied) = Cardinality(Applied(r)) THEN {} ELSE {"ScenarioExpansion"})
        \cup (IF r.out.scenario = r.scenariostr THEN {} ELSE {"ScenarioRecorded"}))

VARIABLE i
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        /\ (i + 1 = Len(Recs)) => PrintT(ToJson([done |-> i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
