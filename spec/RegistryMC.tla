----------------------------- MODULE RegistryMC -----------------------------
(* Names and kinds only: which name is occupied by which kind of component.
   Explored exhaustively for its laws; its transitions are walked on the real
   backends (the outcome of every call is then judged with Registry.tla).     *)
EXTENDS Naturals, FiniteSets, TLC, Json
CONSTANTS Names, EMIT
Kinds == {"variables", "global_expressions", "constraints", "objectives"}
How == {"good", "bad", "inactive", "missing"}    \* bad: overlapping alternatives; missing: refers to an unknown name
Acts == {[op |-> "add", name |-> n, kind |-> k, how |-> h] : n \in Names, k \in Kinds, h \in How}
        \cup {[op |-> "delete", name |-> n, kind |-> k, how |-> "-"] : n \in Names, k \in Kinds}
Possible(a) == ~(a.op = "add" /\ a.kind = "variables" /\ a.how \in {"bad", "missing"})
VARIABLE reg
Out(r, a) == IF a.op = "delete" THEN (IF r[a.name] = a.kind THEN "gone" ELSE "nothing")
             ELSE IF a.how = "inactive" THEN "nothing" ELSE IF r[a.name] # "free" \/ a.how # "good" THEN "refused" ELSE "added"
Do(r, a) == CASE Out(r, a) = "gone" -> [r EXCEPT ![a.name] = "free"] [] Out(r, a) = "added" -> [r EXCEPT ![a.name] = a.kind] [] OTHER -> r
Init == reg = [n \in Names |-> "free"]
Next == \E a \in {x \in Acts : Possible(x)} : reg' = Do(reg, a) /\ (EMIT => PrintT(ToJson([from |-> reg, act |-> a, to |-> reg', out |-> Out(reg, a)])))
Spec == Init /\ [][Next]_reg
TypeOK == reg \in [Names -> Kinds \cup {"free"}]
Laws == \A a \in {x \in Acts : Possible(x)} :
  /\ Out(reg, a) \in {"refused", "nothing"} => Do(reg, a) = reg
  /\ Out(reg, a) = "added" => LET b == [op |-> "delete", name |-> a.name, kind |-> a.kind, how |-> "-"] IN Do(Do(reg, a), b) = reg
  /\ \A n \in Names \ {a.name} : Do(reg, a)[n] = reg[n]
=============================================================================
