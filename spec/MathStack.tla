----------------------------- MODULE MathStack -----------------------------
(***************************************************************************)
(* P04.  The math of a model is a stack of layers: base, the selected      *)
(* mode, each extra math in listed order.  A layer is the file of that     *)
(* name (a user file replaces a pre-defined one), with the math dictionary *)
(* entry of that name merged on top.                                       *)
(* Record: files : <<name, tree>> ; dict : <<name, tree>> ; mode ; extra ; *)
(*   steps : successive (re)initialisations of the model, each with its    *)
(*   own mode / extra list and the observed stack and stored layers.       *)
(***************************************************************************)
EXTENDS Trees, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)
Range(s) == {s[i] : i \in 1..Len(s)}

Find(s, n) == LET S == {k \in 1..Len(s) : s[k][1] = n}
              IN IF S = {} THEN NoTree ELSE TreeOf(s[CHOOSE k \in S : TRUE][2])
Known(r, n) == n \in {r.files[k][1] : k \in 1..Len(r.files)} \cup {r.dict[k][1] : k \in 1..Len(r.dict)}
LayerNamed(r, n) == Overlay(Find(r.files, n), Find(r.dict, n))

Order(s) == <<"base">> \o (IF s.mode = "base" THEN <<>> ELSE <<s.mode>>) \o s.extra

RECURSIVE StackUp(_, _, _)
StackUp(r, acc, names) == IF names = <<>> THEN acc
                          ELSE StackUp(r, Overlay(acc, LayerNamed(r, Head(names))), Tail(names))
Math(r, s) == StackUp(r, NoTree, Order(s))
Unknown(r, s) == \E n \in Range(Order(s)) : ~Known(r, n)

Kinds == {"dimensions", "parameters", "lookups", "variables", "global_expressions", "constraints",
          "piecewise_constraints", "objectives", "postprocessed", "checks"}
Comps(t) == {<<p[1], p[2]>> : p \in {q \in DOMAIN t : Len(q) >= 2 /\ q[1] \in Kinds}}
Active(t, c) == ~(<<c[1], c[2], "active">> \in DOMAIN t /\ t[<<c[1], c[2], "active">>] = "b:False")
NameClash(t) == \E c, d \in Comps(t) : c # d /\ c[2] = d[2] /\ Active(t, c) /\ Active(t, d)

\* r.defaults : <<kind, path inside the component, leaf>>
IsDefault(r, p, v) == \/ Len(p) < 3 /\ v = Empty
                      \/ \E k \in 1..Len(r.defaults) :
                           LET d == r.defaults[k] IN d[1] = p[1] /\ d[2] = SubSeq(p, 3, Len(p)) /\ d[3] = v
Agrees(r, exp, got) ==
  /\ \A p \in DOMAIN exp : IF p \in DOMAIN got THEN got[p] = exp[p] ELSE IsDefault(r, p, exp[p])
  /\ \A p \in DOMAIN got : p \in DOMAIN exp \/ IsDefault(r, p, got[p])
SameTree(a, b) == TreeOf(a) = TreeOf(b)

\* The problem built holds the active components of the stack and nothing else.
Solver == {"variables", "constraints", "global_expressions", "objectives"}
BuiltOk(t, got) ==
  LET want == {c \in Comps(t) : c[1] \in Solver /\ Active(t, c)}
  IN got \subseteq want /\ \A c \in want : c \in got \/ <<c[1], c[2], "where">> \in DOMAIN t
StepFails(r, s) ==
  IF Unknown(r, s) THEN IF s.out.ok THEN {"UnknownMathRejected"} ELSE {}
  ELSE IF NameClash(Math(r, s)) THEN IF s.out.ok THEN {"NameClashRejected"} ELSE {}
  ELSE IF ~s.out.ok THEN {"Accepted"}
  ELSE (IF Agrees(r, Math(r, s), TreeOf(s.out.math)) THEN {} ELSE {"LayerStack"}) \cup
       (IF s.out.priority = Order(s) THEN {} ELSE {"PriorityRecorded"}) \cup
       (IF \A n \in {s.out.stored[k][1] : k \in 1..Len(s.out.stored)} :
             ~Known(r, n) \/ Find(s.out.stored, n) = LayerNamed(r, n)
        THEN {} ELSE {"StoredLayersUnchanged"}) \cup
       (IF \A k \in 1..Len(r.files) : r.files[k][1] \in {s.out.stored[j][1] : j \in 1..Len(s.out.stored)} \/ TreeOf(r.files[k][2]) = NoTree
        THEN {} ELSE {"LayersStored"}) \cup
       (IF s.built = "yes" /\ ~s.out.build_ok THEN {"Buildable"} ELSE {}) \cup
       (IF s.built = "yes" /\ s.out.build_ok /\ ~BuiltOk(Math(r, s), Range(s.out.comps)) THEN {"BuiltFromStack"} ELSE {})

Fails(r) == UNION {StepFails(r, r.steps[k]) : k \in 1..Len(r.steps)}
            \cup (IF r.untouched THEN {} ELSE {"OtherModelUnchanged"})

VARIABLE i
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        /\ (i + 1 = Len(Recs)) => PrintT(ToJson([done |-> i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
