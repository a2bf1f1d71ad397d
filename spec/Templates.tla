----------------------------- MODULE Templates -----------------------------
(***************************************************************************)
(* P02.  Template resolution.  A record holds one definition (a tree with  *)
(* a "templates" section, `template` leaves holding template names) and    *)
(* the resolved definition the code produced for two orderings of it.      *)
(***************************************************************************)
EXTENDS Trees, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
Call == "template"
Lib  == "templates"

Names(t) == {p[2] : p \in {q \in DOMAIN t : q[1] = Lib /\ Len(q) >= 2}}
Raw(t, n) == Below(t, <<Lib, n>>)
Keys(b) == {p[1] : p \in DOMAIN b}
Put(k, b) == IF b = NoTree THEN [p \in {<<k>>} |-> Empty] ELSE At(<<k>>, b)

RECURSIVE Merge(_)
Merge(S) == IF S = {} THEN NoTree
            ELSE LET x == CHOOSE y \in S : TRUE IN Overlay(Merge(S \ {x}), x)

\* The content of template n / of a block b, with all references filled in:
\* a block's own settings lie on top of those of the template it names.
RECURSIVE T(_, _), Res(_, _)
T(t, n) == Res(t, Raw(t, n))
Res(t, b) ==
  LET local == Merge({IF <<k>> \in DOMAIN b THEN [p \in {<<k>>} |-> b[<<k>>]]
                      ELSE Put(k, Res(t, Below(b, <<k>>))) : k \in Keys(b) \ {Call}})
  IN IF <<Call>> \in DOMAIN b THEN Overlay(T(t, b[<<Call>>]), local) ELSE local

Calls(b) == {b[p] : p \in {q \in DOMAIN b : q[Len(q)] = Call}}
RECURSIVE Reach(_, _, _)
Reach(t, S, fuel) == IF fuel = 0 THEN S
                     ELSE Reach(t, S \cup UNION {Calls(Raw(t, n)) : n \in S}, fuel - 1)
Fuel == 8
Circular(t) == \E n \in Names(t) : n \in Reach(t, Calls(Raw(t, n)), Fuel)
Used(t) == Reach(t, Calls(Without(t, <<Lib>>)), Fuel)
Unknown(t) == \E n \in Used(t) : n \notin Names(t)
UnknownAnywhere(t) == \E n \in Names(t) : \E c \in Calls(Raw(t, n)) : c \notin Names(t)

Expected(t) == Res(t, Without(t, <<Lib>>))

Filler(p, v) == \/ v = Empty /\ Len(p) <= 2
                \/ p[Len(p)] = "active" /\ v = "b:True"
                \/ p[Len(p)] \in {"base_tech", "latitude", "longitude"} /\ v = Null
Optional(p, v) == v \in {Null, Empty} /\ (p[1] = "config" \/ Len(p) <= 2)
Agrees(exp, got) ==
  /\ \A p \in DOMAIN exp : \/ p \in DOMAIN got /\ got[p] = exp[p]
                           \/ Optional(p, exp[p]) /\ p \notin DOMAIN got
  /\ \A p \in DOMAIN got : p \in DOMAIN exp \/ Filler(p, got[p])
NoReference(got) == \A p \in DOMAIN got : p[1] # Lib /\ \A k \in 1..Len(p) : p[k] # Call

Fails(r) ==
  LET t == TreeOf(r.defn) IN
  (IF r.same THEN {} ELSE {"OrderIrrelevant"}) \cup
  (IF r.mutated THEN {"CallerUnchanged"} ELSE {}) \cup
  (IF Circular(t) THEN IF r.out.ok THEN {"CircularRejected"} ELSE {}
   ELSE IF Unknown(t) THEN IF r.out.ok THEN {"UnknownRejected"} ELSE {}
   ELSE IF UnknownAnywhere(t) THEN {}
   ELSE IF ~r.out.ok THEN {"Accepted"}
   ELSE LET got == TreeOf(r.out.tree) IN
        (IF NoReference(got) THEN {} ELSE {"NoReferenceLeft"}) \cup
        (IF Agrees(Expected(t), got) THEN {} ELSE {"Resolved"}))

VARIABLE i
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        /\ (i + 1 = Len(Recs)) => PrintT(ToJson([done |-> i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
