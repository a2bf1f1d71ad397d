---------------------------- MODULE OperateCore ----------------------------
(* Operate mode (P08): dispatch over a rolling horizon.
   A system s: ts (times in minutes, s.ts[1] = 0), dem, price, cap (per node
   and timestep; cap: most that can be generated), batcap, batflow, init (per
   node: battery size, most that is charged or discharged per timestep, level
   before the first timestep), link (most that is exchanged per timestep).
   All numbers are integers and no energy is lost, so that an optimal dispatch
   exists in integers: dynamic programming over battery levels is exact.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Inf == 1000000
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Nodes(s) == 1..Len(s.dem)
Steps(s) == 1..Len(s.ts)
---------------------------------------------------------------------------
(* Windows of W minutes, each optimised over H minutes, until the data end. *)
NWindows(s, W) == Cardinality({k \in 1..Len(s.ts) : (k - 1) * W <= s.ts[Len(s.ts)]})
Horizon(s, W, H, k) == {j \in Steps(s) : (k - 1) * W <= s.ts[j] /\ s.ts[j] < (k - 1) * W + H}
Kept(s, W, k) == {j \in Steps(s) : (k - 1) * W <= s.ts[j] /\ (k = NWindows(s, W) \/ s.ts[j] < k * W)}
First(S) == Min(S)
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
---------------------------------------------------------------------------
(* The least cost of a timestep k in which the batteries' levels rise by d. *)
Flows(s) == IF Len(s.dem) = 1 THEN {0} ELSE (-s.link)..s.link
Gen(s, k, d, f, n) == s.dem[n][k] + d[n] + (IF n = 1 THEN f ELSE -f)
StepCost(s, k, d) ==
  LET cost(f) == IF \A n \in Nodes(s) : Gen(s, k, d, f, n) >= 0 /\ Gen(s, k, d, f, n) <= s.cap[n][k]
                 THEN s.price[1][k] * Gen(s, k, d, f, 1) + (IF Len(s.dem) = 1 THEN 0 ELSE s.price[2][k] * Gen(s, k, d, f, 2))
                 ELSE Inf
  IN Min({cost(f) : f \in Flows(s)})
Tuples(s, R(_)) == IF Len(s.dem) = 1 THEN {<<x>> : x \in R(1)} ELSE {<<x, y>> : x \in R(1), y \in R(2)}
Levels(s) == LET R(n) == 0..s.batcap[n] IN Tuples(s, R)
Rises(s) == LET R(n) == (-s.batflow[n])..s.batflow[n] IN Tuples(s, R)
Plus(l, d) == [n \in DOMAIN l |-> l[n] + d[n]]
(* The least cost of the timesteps j..last, from each combination of levels. *)
RECURSIVE ToGo(_, _, _)
ToGo(s, j, last) ==
  IF j > last THEN TLCEval([l \in Levels(s) |-> 0])
  ELSE LET rest == ToGo(s, j + 1, last)
           c == TLCEval([d \in Rises(s) |-> StepCost(s, j, d)])
       IN TLCEval([l \in Levels(s) |-> LET ds == {d \in Rises(s) : Plus(l, d) \in Levels(s)} IN Min({Inf} \cup {c[d] + rest[Plus(l, d)] : d \in ds})])
=============================================================================
