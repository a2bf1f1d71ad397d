------------------------------- MODULE Energy -------------------------------
(* P17 for recorded solutions.  A record: sys, sols (see EnergyCore). *)
EXTENDS EnergyCore, Json, IOUtils, TLC
Recs == JsonDeserialize(IOEnv.RECS)
RecFails(r) == Worse(r.sys, r.sols) \cup UNION {Fails(r.sys, r.sols[k]) : k \in DOMAIN r.sols}

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == RecFails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
