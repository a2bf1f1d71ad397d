------------------------------- MODULE Spores -------------------------------
(* P09 for recorded histories.  A record: sys, slack, factor, alg, first (is
   the cost multiplied by), hist of [op, n, ok, mult, ids, alts (capacities),
   scores, costs (reported, times 80), files (per file: id, capacities)].    *)
EXTENDS SporesCore, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)
Times(s, m) == [s EXCEPT !.slots = [i \in Slots(s) |-> [s.slots[i] EXCEPT !.cost = m * @]]]
Unit(alg, w) == IF alg = "evolving_average" THEN [i \in DOMAIN w |-> w[i] \div 100] ELSE w
Meets(s, x) == (\A i \in Slots(s) : x[i] >= 0 /\ x[i] <= s.slots[i].max)
  /\ \A n \in DOMAIN s.dem : LET c == [i \in At(s, n) |-> x[i]] IN Sum(c, At(s, n)) >= s.dem[n]
RunFails(r, k) ==
  LET st == r.hist[k] s == Times(r.sys, st.mult) base == Cost(s, st.alts[1])
      B == Budget(base, r.slack)
      zero == [i \in Slots(s) |-> 0]
      later == 2..Len(st.alts)
  IN (IF st.ids # [j \in 1..(st.n + 1) |-> j - 1] \/ Len(st.alts) # st.n + 1 THEN {"Alternatives"} ELSE
      (IF \E j \in 1..Len(st.alts) : ~Meets(s, st.alts[j]) THEN {"Feasible"} ELSE {})
      \cup (IF \E j \in 1..Len(st.alts) : Abs(Cost(s, st.alts[j]) - st.costs[j]) > 1 THEN {"Cost"} ELSE {})
      \cup (IF base # Least(s, Costs(s), Big) THEN {"Baseline"} ELSE {})
      \cup (IF \E j \in later : Cost(s, st.alts[j]) > B + 1 THEN {"Budget"} ELSE {})
      \cup (IF st.scores[1] # zero \/ \E j \in later : ~Next_(s, r.alg, SubSeq(st.alts, 1, j - 1), st.scores[j - 1], r.factor, st.scores[j]) THEN {"Score"} ELSE {})
      \cup (IF \E j \in later : LET w == Unit(r.alg, st.scores[j]) v == Value(s, w, st.alts[j]) IN Abs(v - Least(s, w, B)) > 2000 THEN {"Alternative"} ELSE {})
      \cup (IF \E f \in {st.files[q] : q \in DOMAIN st.files} : f.id + 1 \notin DOMAIN st.alts \/ f.caps # st.alts[f.id + 1] THEN {"File"} ELSE {})
      \cup (IF {st.files[q].id : q \in DOMAIN st.files} # {st.saved[q] : q \in DOMAIN st.saved} THEN {"Files"} ELSE {})
      \* what was there before continuing is still there
      \cup (IF st.op = "continue" /\ LET p == r.hist[st.since] IN SubSeq(st.alts, 1, Len(p.alts)) # p.alts THEN {"Kept"} ELSE {})
      \cup (IF st.op = "skip" /\ st.alts[1] # st.given THEN {"Given"} ELSE {}))
Fails(r) == UNION {IF ~r.hist[k].ok THEN {"Fails_" \o r.hist[k].op}
                   ELSE IF r.hist[k].op \in {"run", "continue", "skip"} THEN RunFails(r, k) ELSE {} : k \in 1..Len(r.hist)}

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
