------------------------------ MODULE Persist ------------------------------
(* Saving, reloading and exporting models (P10).
   The state: the model in memory, and the files.  A model is three sets of
   leaves (inputs, results, attrs); building and solving are functions of the
   model, so that equal models pose equal problems and have equal results.
   A record r: models (sequence of [inputs, results, attrs, csv]: sets as
   sequences; csv: cells <<group, array, index, value>> as text, "~" missing),
   first (model in memory at the beginning), steps (sequence of [op, file, ok,
   after (index in models), csv, drop, problem]).                            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
Rng(s) == {s[k] : k \in 1..Len(s)}
Parts == {"inputs", "results", "attrs"}
\* a leaf of attrs is <<path, value>>; the time of loading is that of loading
Volatile == {"runtime.timings.init_complete"}
Leaves(r, m, p) == IF p = "attrs" THEN {x \in Rng(r.models[m].attrs) : x[1] \notin Volatile} ELSE Rng(r.models[m][p])
Differ(r, m1, m2, why) == IF m1 = m2 THEN {} ELSE {why \o "_" \o p : p \in {q \in Parts : Leaves(r, m1, q) # Leaves(r, m2, q)}}
\* what building and solving depend on
Timing(x) == x[3] = "timing"
Posed(r, m) == <<Rng(r.models[m].inputs), {x \in Rng(r.models[m].attrs) : ~Timing(x)}>>
Cells(r, m, drop) == {x \in Rng(r.models[m].csv) : ~drop \/ x[4] # "~"}

Empty == [f \in {} |-> 0]
Write(d, f, m) == [g \in DOMAIN d \cup {f} |-> IF g = f THEN m ELSE d[g]]
RECURSIVE Walk(_, _, _, _)
Walk(r, k, mem, disk) ==
  IF k > Len(r.steps) THEN {}
  ELSE LET s == r.steps[k] IN
    IF ~s.ok THEN {"Fails_" \o s.op}
    ELSE CASE s.op = "save" -> Differ(r, mem, s.after, "SaveChanges") \cup Walk(r, k + 1, s.after, Write(disk, s.file, mem))
           [] s.op = "badsave" -> Differ(r, mem, s.after, "RefusedSaveChanges") \cup Walk(r, k + 1, s.after, disk)
           [] s.op = "csv"  -> Differ(r, mem, s.after, "CsvChanges") \cup (IF Rng(s.csv) = Cells(r, mem, s.drop) THEN {} ELSE {"Csv"})
                               \cup Walk(r, k + 1, s.after, disk)
           [] s.op = "load" -> Differ(r, disk[s.file], s.after, "Reload") \cup (IF s.solved = r.models[disk[s.file]].solved THEN {} ELSE {"Reload_solved"})
                               \cup Walk(r, k + 1, s.after, disk)
           [] OTHER -> Walk(r, k + 1, s.after, disk)
\* equal models: equal problems, equal results
Before(r, k) == IF k = 1 THEN r.first ELSE r.steps[k - 1].after
Twins(r) ==
  UNION {LET a == r.steps[j] b == r.steps[k] IN
         IF ~(a.ok /\ b.ok /\ a.op = b.op /\ a.op \in {"build", "solve"} /\ a.args = b.args /\ Posed(r, Before(r, j)) = Posed(r, Before(r, k))) THEN {}
         ELSE IF a.op = "build" THEN (IF Rng(a.problem) = Rng(b.problem) THEN {} ELSE {"SameProblem"})
         ELSE IF Rng(r.models[a.after].results) = Rng(r.models[b.after].results) THEN {} ELSE {"SameResults"}
         : <<j, k>> \in {x \in (1..Len(r.steps)) \X (1..Len(r.steps)) : x[1] < x[2]}}
Fails(r) == Walk(r, 1, r.first, Empty) \cup Twins(r)

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
