-------------------------------- MODULE Math --------------------------------
(* Conformance of recorded builds with the denotational semantics (Sem.tla):
   which additions are refused (or found unusable when handed over), which members every component has, and the
   linear problem handed to the solver.
   A record: id, m (model record for Sem), refused (uids of additions refused, or
   holding undefined values), leaked (uids of the latter that reached a solver file),
   listed (component listings with member ids), lp.                           *)
EXTENDS Sem, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)

Listed(r, n) == {i \in 1..Len(r.listed) : r.listed[i].name = n}
MembersOk(pr, r) ==
  /\ \A n \in DOMAIN pr.members : Cardinality(Listed(r, n)) = 1 /\ \A i \in Listed(r, n) : Rng(r.listed[i].ids) = pr.members[n]
  /\ \A i \in 1..Len(r.listed) : r.listed[i].name \in DOMAIN pr.members

Fails(r) ==
  LET pr == TLCEval(ProblemOf(r.m, Rng(r.refused))) IN
  IF pr.refused # Rng(r.refused)
  THEN {"RefusedExactlyWhereUndefinedOrAmbiguous"}
  ELSE (IF r.leaked = <<>> THEN {} ELSE {"UndefinedNeverHandedOver"}) \cup
       (IF MembersOk(pr, r) THEN {} ELSE {"MembersExactlyWhereDefined"}) \cup LPFails(r.m, pr, r.lp)

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
