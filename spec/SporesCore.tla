----------------------------- MODULE SporesCore -----------------------------
(* SPORES (P09): near-optimal alternatives.
   A system s: slots (supplies and demands at nodes: [node, cost, max, track,
   sink]), dem (per node).  All quantities are in 80ths, which is fine enough
   for every vertex of the systems considered (costs differ by 1, 4 or 5, the
   slack is a multiple of a quarter).  An alternative is a sequence of
   capacities, one per slot.  Scores are in units that depend on the algorithm
   (integer, random: as they are; relative, evolving: thousandths).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Big == 1000000000
Abs(x) == IF x < 0 THEN -x ELSE x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Slots(s) == 1..Len(s.slots)
Supplies(s) == {i \in Slots(s) : ~s.slots[i].sink}
At(s, n) == {i \in Supplies(s) : s.slots[i].node = n}
Tracked(s) == {i \in Slots(s) : s.slots[i].track}
Cost(s, x) == LET c == [i \in Slots(s) |-> s.slots[i].cost * x[i]] IN Sum(c, Slots(s))
---------------------------------------------------------------------------
(* The least of w (a weight per slot) over all systems that meet the demand at
   a cost of at most B: a linear program, decided on its vertices.  At every
   node one supply makes up for what the others, being unused or used to the
   full, do not deliver; one further supply may use up the budget.           *)
Vertices(s, B) ==
  LET N == DOMAIN s.dem
      point(b, U, f, v) ==  \* f: the supply that delivers v (none: 0)
        [i \in Slots(s) |->
           IF s.slots[i].sink THEN s.slots[i].max
           ELSE IF i = f THEN v
           ELSE IF i \in U THEN s.slots[i].max
           ELSE IF i = b[s.slots[i].node]
           THEN LET o == [j \in At(s, s.slots[i].node) \ {i} |-> IF j = f THEN v ELSE IF j \in U THEN s.slots[j].max ELSE 0]
                IN s.dem[s.slots[i].node] - Sum(o, DOMAIN o)
           ELSE 0]
      ok(x) == (\A i \in Slots(s) : x[i] >= 0 /\ x[i] <= s.slots[i].max) /\ Cost(s, x) <= B
      bases == {b \in [N -> Supplies(s)] : \A n \in N : s.slots[b[n]].node = n}
      rest(b) == Supplies(s) \ {b[n] : n \in N}
      tight(b, U, f) ==
        LET d == s.slots[f].cost - s.slots[b[s.slots[f].node]].cost IN
        IF d = 0 THEN {} ELSE LET room == B - Cost(s, point(b, U, f, 0)) IN
        IF (d > 0) = (room >= 0) THEN {point(b, U, f, Abs(room) \div Abs(d))} ELSE {}
  IN {x \in UNION {UNION {{point(b, U, 0, 0)} \cup (IF B = Big THEN {} ELSE UNION {tight(b, U, f) : f \in rest(b) \ U}) : U \in SUBSET rest(b)} : b \in bases} : ok(x)}
Value(s, w, x) == LET c == [i \in Slots(s) |-> w[i] * x[i]] IN Sum(c, Slots(s))
Least(s, w, B) == Min({Value(s, w, x) : x \in Vertices(s, B)})
Costs(s) == [i \in Slots(s) |-> s.slots[i].cost]
Budget(base, slack) == base + (base * slack[1]) \div slack[2]
---------------------------------------------------------------------------
(* The increment of the score that an alternative x (the last of hist) gives. *)
Relevant(s, x, factor) == {i \in Tracked(s) : x[i] * factor[2] > factor[1] * Max({x[j] : j \in Tracked(s)} \cup {0})}
Integer_(s, x, factor) == [i \in Slots(s) |-> IF i \in Relevant(s, x, factor) THEN 1000 ELSE 0]
Relative(s, x, factor) == [i \in Slots(s) |-> IF i \in Tracked(s) /\ x[i] * factor[2] > factor[1] * s.slots[i].max THEN (1000 * x[i]) \div s.slots[i].max ELSE 0]
Total(s, hist, i) == LET c == [k \in 1..Len(hist) |-> hist[k][i]] IN Sum(c, 1..Len(hist))
Change(s, hist, i) == Abs(Total(s, hist, i) - Len(hist) * hist[Len(hist)][i])
Steady(s, hist) == \A i \in Slots(s) : Change(s, hist, i) = 0
Evolving(s, hist) == [i \in Slots(s) |->
  IF i \notin Tracked(s) \/ Total(s, hist, i) = 0 THEN 0
  ELSE IF Change(s, hist, i) * 1000 <= Total(s, hist, i) THEN 1000000
  ELSE (1000 * Total(s, hist, i)) \div Change(s, hist, i)]
Plus(a, b) == [i \in DOMAIN a |-> a[i] + b[i]]
\* the scores that may follow score `old` after the alternatives `hist`
Next_(s, alg, hist, old, factor, new) ==
  LET x == hist[Len(hist)]
      near(e) == \A i \in Slots(s) : Abs(new[i] - e[i]) <= 2
      rel(e) == \A i \in Slots(s) : Abs(new[i] - e[i]) <= 2 + e[i] \div 1000
      int1000(e) == [i \in DOMAIN e |-> 1000 * e[i]]
  IN CASE alg = "integer" -> new = Plus(old, Integer_(s, x, factor))
       [] alg = "relative_deployment" -> near(Plus(old, Relative(s, x, factor)))
       [] alg = "random" -> \A i \in Slots(s) : new[i] - old[i] \in (IF i \in Tracked(s) THEN {0, 1000} ELSE {0})
       [] alg = "evolving_average" ->
            \/ Steady(s, hist) /\ new = Plus(old, int1000(Integer_(s, x, factor)))
            \/ ~(Steady(s, hist) /\ Len(hist) = 1) /\ rel(Evolving(s, hist))
       [] OTHER -> FALSE
=============================================================================
