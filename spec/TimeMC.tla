------------------------------- MODULE TimeMC -------------------------------
(* Histories of a small time axis, explored exhaustively, and the laws that
   subset, resample and cluster have to obey for the reading of P13 to make
   sense: nothing is added, lost or counted twice.                           *)
EXTENDS TimeCore
VARIABLES st, was, n
\* three days of 8-hour steps, beginning at midnight or at 8:00; some values missing
V == << <<1, 1>>, <<2, 1>>, None, <<5, 2>>, <<-3, 1>>, <<0, 1>>, None, None, <<7, 1>> >>
Axis(off, len) == [k \in 1..len |-> off + (k - 1) * 480]
Start(off, len) == [ts |-> Axis(off, len), clustered |-> FALSE,
                    series |-> [s |-> [method |-> "sum", vals |-> SubSeq(V, 1, len)], m |-> [method |-> "mean", vals |-> SubSeq(V, 1, len)],
                                f |-> [method |-> "first", vals |-> SubSeq(V, 1, len)]]]
Reps == {<<1, 1, 2>>, <<2, 1, 1>>, <<1, 2, 3>>, <<3, 3, 3>>}
None0 == [op |-> "start"]
Init == \E off \in {Day, Day + 480} : \E len \in {4, 8, 9} : st = Inferred(Start(off, len)) /\ was = [op |-> "start", st |-> Inferred(Start(off, len))] /\ n = 0
Go(s, op) == st' = s /\ was' = op /\ n' = n + 1 /\ n < 3 /\ ~st.clustered /\ st.ts # <<>>
DoSub == \E lo \in {Day, Day + 480, 2 * Day} : \E hi \in {2 * Day, 2 * Day + 960, 4 * Day} :
           lo < hi /\ Go(Subset(st, lo, hi), [op |-> "sub", lo |-> lo, hi |-> hi, st |-> st])
DoRes == \E w \in {480, 720, 960, 1440, 2880} : Go(Resample(st, w), [op |-> "res", w |-> w, st |-> st])
DoClu == \E r \in Reps : Go(Cluster(st, r), [op |-> "clu", r |-> r, st |-> st])
Next == DoSub \/ DoRes \/ DoClu
Spec == Init /\ [][Next]_<<st, was, n>>
Tot(x) == Sum(Defined(x.series.s.vals))
Hours(x) == Sum(x.series.timestep_resolution.vals)
Weights(x) == Sum(x.series.timestep_weights.vals)
\* the times stay in order, and every series is as long as the axis
Ordered == /\ \A k \in 1..(Len(st.ts) - 1) : st.ts[k] < st.ts[k + 1]
           /\ \A s \in DOMAIN st.series : Len(st.series[s].vals) = Len(st.ts)
\* what is summed is conserved by resampling, as are the hours of the horizon
Conserved == was.op = "res" => Same(Tot(st), Tot(was.st)) /\ Same(Hours(st), Hours(was.st))
\* missing only where all were missing; means lie between the extremes of their period
MissingOnlyIfAll == was.op = "res" => \A k \in 1..Len(st.ts) :
  (st.series.m.vals[k][2] = 0) <=> (\A j \in 1..Len(was.st.ts) : Bin(was.st, was.w, was.st.ts[j]) = st.ts[k] => was.st.series.m.vals[j][2] = 0)
\* doing it again changes nothing
Again == /\ was.op = "sub" => Subset(st, was.lo, was.hi) = st
         /\ (was.op = "res" /\ st.ts # <<>> /\ st.ts[1] % Day = 0) => Resample(st, was.w) = st
\* every original day is counted once, at the day that stands for it
Weighted == was.op = "clu" =>
  Same(Weights(st), Sum([j \in 1..Len(was.r) |-> <<Cardinality({k \in 1..Len(was.st.ts) : DayOf(was.st.ts[k]) = was.r[j]}), 1>>]))
=============================================================================
