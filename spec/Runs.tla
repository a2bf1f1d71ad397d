-------------------------------- MODULE Runs --------------------------------
(* What generated scripts do, when they are executed (P18).
   A record r: kind "scenarios": prefix, groups, obs (sequence of [name,
   overrides]).  Otherwise: model, given (sequence or <<>>), scenarios,
   overrides (names in the model definition), more (arguments), all (what
   running the script without an index runs), each (what every index runs),
   array (<<first, last>> or <<>>), threads, mem, time (minutes) and obstime. *)
EXTENDS RunsCore, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
Wanted(r) == IF r.given # <<>> THEN r.given ELSE IF r.scenarios # <<>> THEN r.scenarios ELSE r.overrides
ScriptFails(r) ==
  LET w == Runs(r.model, Wanted(r), r.more) IN
  IF ~r.ok THEN {"Generated"} ELSE
     (IF r.all = w THEN {} ELSE {"RunsAll"})
  \cup (IF r.kind \in {"bash", "bsub", "sbatch"} /\ r.each # w THEN {"RunsEach"} ELSE {})
  \cup (IF r.kind \in {"bsub", "sbatch"} /\ r.array # <<1, Len(w)>> THEN {"Array"} ELSE {})
  \cup (IF r.kind \in {"bsub", "sbatch"} /\ r.obsres # <<r.threads, r.mem, r.time>> THEN {"Resources"} ELSE {})
Fails(r) == IF r.kind = "scenarios" THEN (IF r.ok /\ r.obs = Scenarios(r.prefix, r.groups) THEN {} ELSE {"Scenarios"}) ELSE ScriptFails(r)

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
