------------------------------ MODULE Operate ------------------------------
(* P08 for recorded histories.  A record: sys, cfgs (<<W, H>> in minutes), hist
   of [op, cfg, ok, obs]; obs of a solution: ts, gen, level, flow (per node and
   timestep, flow: from node 2 to node 1), total (objective of the window, per
   timestep), sp (is there a shadow price), sig (everything, as text).       *)
EXTENDS OperateCore, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
LevelAt(s, o, j) == IF j = 0 THEN s.init ELSE [n \in Nodes(s) |-> o.level[n][j]]
CostAt(s, o, j) == LET c == [n \in Nodes(s) |-> s.price[n][j] * o.gen[n][j]] IN Sum(c, Nodes(s))
\* the levels follow from each other, the first from the given one, also where one window hands over to the next
Chained(s, o, j) == \A n \in Nodes(s) :
  /\ LevelAt(s, o, j)[n] = LevelAt(s, o, j - 1)[n] + o.gen[n][j] - s.dem[n][j] + (IF n = 1 THEN o.flow[j] ELSE -o.flow[j])
  /\ LevelAt(s, o, j)[n] \in 0..s.batcap[n] /\ o.gen[n][j] \in 0..s.cap[n][j]
WindowFails(s, o, W, H, k) ==
  LET ho == Horizon(s, W, H, k) ke == Kept(s, W, k)
      cost == [j \in ke |-> CostAt(s, o, j)]
      before == LevelAt(s, o, First(ke) - 1) after == LevelAt(s, o, Last(ke))
      best == ToGo(s, First(ke), Last(ho))[before]
      rest == IF Last(ke) = Last(ho) THEN 0 ELSE ToGo(s, Last(ke) + 1, Last(ho))[after]
  IN (IF \E j \in ke : ~Chained(s, o, j) THEN {"Chained"}
      ELSE IF Sum(cost, ke) + rest # best THEN {"Optimal"} ELSE {})
     \cup (IF \E j \in ke : o.total[j] # best THEN {"Total"} ELSE {})
SolveFails(r, st, sp) ==
  LET o == st.obs s == r.sys W == r.cfgs[st.cfg][1] H == r.cfgs[st.cfg][2] IN
  IF o.ts # s.ts THEN {"Timesteps"}
  ELSE UNION {WindowFails(s, o, W, H, k) : k \in 1..NWindows(s, W)}
       \cup (IF \E j \in Steps(s) : o.sp[j] # sp THEN {"ShadowPrices"} ELSE {})
StepFails(r, k) ==
  LET st == r.hist[k] IN
  IF st.op = "bad" THEN (IF st.ok THEN {"AcceptsShortHorizon"} ELSE {})
  ELSE IF ~st.ok THEN {"Fails_" \o st.op}
  ELSE IF st.op \notin {"solve", "solvesp"} THEN {}
  ELSE SolveFails(r, st, st.op = "solvesp")
       \cup (IF k > 1 /\ r.hist[k - 1].op \in {"solve", "solvesp"} /\ r.hist[k - 1].ok /\ r.hist[k - 1].obs.sig # st.obs.sig THEN {"Again"} ELSE {})
Fails(r) == UNION {StepFails(r, k) : k \in 1..Len(r.hist)}

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
