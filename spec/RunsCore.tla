------------------------------ MODULE RunsCore ------------------------------
(* Which runs a generated script makes, and which scenarios a generated
   scenario file lists (P18).                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Rng(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN 1 ELSE 1 + Digits(n \div 10)
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN "" ELSE "0" \o Zeros(n - 1)
Pad(i, n) == Zeros(Digits(n) - Digits(i)) \o ToString(i)
\* one from every group, in the order of the groups; the last group varies fastest
RECURSIVE Combinations(_)
Combinations(gs) ==
  IF gs = <<>> THEN <<(<<>>)>>
  ELSE LET t == Combinations(Tail(gs)) n == Len(t) g == gs[1] IN
       [k \in 1..(Len(g) * n) |-> <<g[((k - 1) \div n) + 1]>> \o t[((k - 1) % n) + 1]]
Scenarios(prefix, gs) ==
  LET c == Combinations(gs) IN [k \in 1..Len(c) |-> [name |-> prefix \o Pad(k, Len(c)), overrides |-> c[k]]]
\* the k-th of n runs
Run(model, run, k, n) == <<"run", model, "--scenario", run, "--save_netcdf", "out_" \o Pad(k, n) \o "_" \o run \o ".nc">>
Runs(model, rs, more) == [k \in 1..Len(rs) |-> Run(model, rs[k], k, Len(rs)) \o more]
=============================================================================
