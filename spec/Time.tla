-------------------------------- MODULE Time --------------------------------
(* Time series of a model: subset, resample, cluster, in this order, for every
   initialisation of the model (P13).  Times are minutes, values rationals
   <<n, d>>, <<0, 0>> where there is none.
   A record r: orig [ts, days, reps, series], hist (sequence of [sub, width,
   cluster, obs]); or a subset of nodes and technologies (r.kind = "dims").  *)
EXTENDS TimeCore, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
RECURSIVE After(_, _)
After(r, k) == IF k = 0 THEN [ts |-> r.orig.ts, series |-> r.orig.series, clustered |-> FALSE] ELSE Step(After(r, k - 1), r.hist[k], k = 1, r.orig.reps)

\* lookups of clusters
ClusterOk(r, st, o) ==
  LET R == Rng(r.orig.reps)
      id(d) == Cardinality({e \in R : e < d})
      of(d) == {k \in 1..Len(st.ts) : DayOf(st.ts[k]) = d}
      last(d) == IF of(d) = {} THEN -1 ELSE st.ts[CHOOSE k \in of(d) : \A j \in of(d) : j <= k]
      isfirst(k) == \A j \in of(DayOf(st.ts[k])) : k <= j
  IN /\ o.cluster = [k \in 1..Len(st.ts) |-> id(DayOf(st.ts[k]))]
     /\ o.first = [k \in 1..Len(st.ts) |-> isfirst(k)]
     /\ \A k \in 1..Len(st.ts) : o.last[k] = (IF isfirst(k) THEN last(DayOf(st.ts[k])) ELSE -1)   \* where the level before the first hour is looked up
     /\ o.days = r.orig.days
     /\ o.daycluster = [k \in 1..Len(r.orig.days) |-> id(r.orig.reps[k])]
     /\ o.daylast = [k \in 1..Len(r.orig.days) |-> last(r.orig.reps[k])]
HistFails(r) ==
  UNION {LET st == TLCEval(After(r, k)) o == r.hist[k].obs IN
    IF ~o.ok THEN (IF Len(st.ts) = 0 THEN {} ELSE {"Accepted"})
    ELSE IF o.ts # st.ts THEN {"Timesteps"}
    ELSE UNION {IF n \in DOMAIN o.series /\ \A j \in 1..Len(st.ts) : Same(o.series[n][j], st.series[n].vals[j]) THEN {} ELSE {"Values_" \o n} :
                n \in {m \in DOMAIN st.series : \E j \in 1..Len(st.ts) : st.series[m].vals[j][2] # 0}}
         \cup (IF ~st.clustered \/ ClusterOk(r, st, o) THEN {} ELSE {"ClusterLookups"})
    : k \in 1..Len(r.hist)}

(* nodes and technologies: the model keeps what is defined for the given ones;
   links with one end only are gone *)
DimFails(r) ==
  LET kept == {m \in Rng(r.before) : (r.nodes = <<>> \/ m[1] \in Rng(r.nodes)) /\ (r.techs = <<>> \/ m[2] \in Rng(r.techs))}
      ends(t) == {m[1] : m \in {x \in kept : x[2] = t}}
      want == {m \in kept : m[2] \in Rng(r.links) => Cardinality(ends(m[2])) > 1}
  IN IF ~r.ok THEN (IF want = {} THEN {} ELSE {"Accepted"})
     ELSE (IF Rng(r.after) = want THEN {} ELSE {"Combinations"})
     \cup (IF Rng(r.nodesafter) = {m[1] : m \in want} /\ Rng(r.techsafter) = {m[2] : m \in want} THEN {} ELSE {"Items"})
     \cup (IF Rng(r.valsafter) = {v \in Rng(r.valsbefore) : \E m \in want : m[1] = v[1] /\ m[2] = v[2]} THEN {} ELSE {"Values"})
Fails(r) == IF r.kind = "dims" THEN DimFails(r) ELSE HistFails(r)

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
