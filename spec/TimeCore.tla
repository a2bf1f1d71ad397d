------------------------------ MODULE TimeCore ------------------------------
(* Subset, resample and cluster time series (P13).  Times are minutes, values
   rationals <<n, d>>, <<0, 0>> where there is none.                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Rng(s) == {s[k] : k \in 1..Len(s)}
None == <<0, 0>>
Day == 1440
Same(x, y) == (x[2] = 0 /\ y[2] = 0) \/ (x[2] # 0 /\ y[2] # 0 /\ x[1] * y[2] = y[1] * x[2])
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Norm(x) == IF x[2] = 0 THEN None ELSE LET g == Gcd(Abs(x[1]), x[2]) IN IF g = 0 THEN <<0, 1>> ELSE <<x[1] \div g, x[2] \div g>>
Plus(x, y) == Norm(<<x[1] * y[2] + y[1] * x[2], x[2] * y[2]>>)
RECURSIVE Sum(_)
Sum(xs) == IF xs = <<>> THEN <<0, 1>> ELSE Plus(xs[1], Sum(Tail(xs)))
Defined(xs) == SelectSeq(xs, LAMBDA x : x[2] # 0)
Aggregate(m, xs) ==
  LET d == Defined(xs) IN
  IF d = <<>> THEN None
  ELSE CASE m = "first" -> d[1] [] m = "sum" -> Sum(d) [] m = "mean" -> LET s == Sum(d) IN Norm(<<s[1], s[2] * Len(d)>>)

\* positions k of the time axis in set K, in order
RECURSIVE Those(_, _, _)
Those(n, K, k) == IF k > n THEN <<>> ELSE (IF k \in K THEN <<k>> ELSE <<>>) \o Those(n, K, k + 1)
Take(s, ks) == [j \in 1..Len(ks) |-> s[ks[j]]]
\* a state: ts, series (name -> [method, vals]), res and wt are series of their own once there
Keep(st, ks) == [st EXCEPT !.ts = Take(@, ks), !.series = [n \in DOMAIN @ |-> [@[n] EXCEPT !.vals = Take(@, ks)]]]
\* from the first to the last requested time; a time given as a date (hour, ..) stands for all of it
Subset(st, lo, hi) == Keep(st, Those(Len(st.ts), {k \in 1..Len(st.ts) : lo <= st.ts[k] /\ st.ts[k] < hi}, 1))
\* periods of the given width, from the midnight before the first time
Bin(st, w, t) == LET o == (st.ts[1] \div Day) * Day IN o + ((t - o) \div w) * w
RECURSIVE Bins(_, _, _)
Bins(st, w, k) == IF k > Len(st.ts) THEN <<>>
                  ELSE (IF k > 1 /\ Bin(st, w, st.ts[k]) = Bin(st, w, st.ts[k - 1]) THEN <<>> ELSE <<Bin(st, w, st.ts[k])>>) \o Bins(st, w, k + 1)
Resample(st, w) ==
  LET bs == Bins(st, w, 1) n == Len(st.ts)
      of == [j \in 1..Len(bs) |-> Those(n, {k \in 1..n : Bin(st, w, st.ts[k]) = bs[j]}, 1)]
  IN [st EXCEPT !.ts = bs, !.series = [s \in DOMAIN @ |-> [method |-> st.series[s].method, vals |-> [j \in 1..Len(bs) |-> Aggregate(st.series[s].method, Take(st.series[s].vals, of[j]))]]]]
\* hours to the next time; the last time lasts as long as the one before it
Resolution(ts) == [k \in 1..Len(ts) |-> IF Len(ts) = 1 THEN <<1, 1>>
                                       ELSE LET j == IF k = Len(ts) THEN k - 1 ELSE k IN Norm(<<ts[j + 1] - ts[j], 60>>)]
Join(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Inferred(st) == [st EXCEPT !.series = Join(@, [timestep_resolution |-> [method |-> "sum", vals |-> Resolution(st.ts)],
                                              timestep_weights |-> [method |-> "mean", vals |-> [k \in 1..Len(st.ts) |-> <<1, 1>>]]])]
\* representative days
DayOf(t) == t \div Day
Cluster(st, reps) ==
  LET R == Rng(reps)
      s == Keep(st, Those(Len(st.ts), {k \in 1..Len(st.ts) : DayOf(st.ts[k]) \in R}, 1))
      n(d) == Cardinality({j \in 1..Len(reps) : reps[j] = d})
  IN [s EXCEPT !.series = Join(@, [timestep_weights |-> [method |-> "mean", vals |-> [k \in 1..Len(s.ts) |-> <<n(DayOf(s.ts[k])), 1>>]]]), !.clustered = TRUE]
Step(st, h, first, reps) ==
  LET a == IF h.sub = <<>> THEN st ELSE Subset(st, h.sub[1], h.sub[2])
      b == IF h.width = 0 \/ a.ts = <<>> THEN a ELSE Resample(a, h.width)
      c == IF first THEN Inferred(b) ELSE b
  IN IF h.cluster THEN Cluster(c, reps) ELSE c
=============================================================================
