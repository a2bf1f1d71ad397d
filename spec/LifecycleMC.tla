---------------------------- MODULE LifecycleMC ----------------------------
(* Exhaustive exploration of the lifecycle machine: design invariants, and  *)
(* (with EMIT = TRUE) the transitions to be walked on the real code.        *)
EXTENDS Lifecycle, Json

CONSTANTS Full, EMIT
Cfg0 == [obj |-> "omin", be |-> "pyomo", ef |-> "ok", solver |-> "cbc", thr |-> "1e-10", sp |-> "none"]
A0 == [call |-> "-", force |-> FALSE, obj |-> "-", be |-> "-", ef |-> "-", solver |-> "-", thr |-> "-", sp |-> "-", need |-> 0]

Objs == IF Full THEN {"-", "omin", "omax", "ounb", "nope"} ELSE {"-", "omax"}
Bes  == IF Full THEN {"-", "gurobi", "pyomo", "nope"} ELSE {"-", "nope"}
Builds == {[A0 EXCEPT !.call = "build", !.force = f, !.obj = o, !.be = b, !.ef = e] :
             f \in BOOLEAN, o \in Objs, b \in Bes, e \in {"-", "bad", "ok"}}
Solves == {[A0 EXCEPT !.call = "solve", !.force = f, !.solver = s, !.thr = t, !.sp = p] :
             f \in BOOLEAN, s \in (IF Full THEN {"-", "glpk", "cbc", "nope"} ELSE {"-"}),
             t \in (IF Full THEN {"-", "1e-3", "nope"} ELSE {"-", "nope"}), p \in (IF Full THEN {"-", "none", "c"} ELSE {"-"})}
Others == {[A0 EXCEPT !.call = "update", !.need = n] : n \in (IF Full THEN {3, 5, 20} ELSE {20})}
          \cup {[A0 EXCEPT !.call = "objective", !.obj = o] : o \in IF Full THEN {"omin", "omax", "ounb", "nope"} ELSE {"nope"}}
          \cup {[A0 EXCEPT !.call = "reload"]}
Actions == Builds \cup Solves \cup Others

VARIABLE m
Init == m = Initial(Cfg0)
Next == \E a \in Actions :
          /\ m' = Apply(m, a)
          /\ EMIT => PrintT(ToJson([from |-> m, act |-> a, to |-> m', out |-> Out(m, a)]))
Spec == Init /\ [][Next]_m

\* design invariants
SolvedOnlyWithTerm == m.solved <=> m.term # {"None"}
ResultsOnlyWhenSolved == m.res.kind # "none" => m.solved
EmptyMeansNotOptimal == (m.res.kind = "empty") => "optimal" \notin m.term
FullMeansOptimal == (m.res.kind = "full") => m.term = {"optimal"}
BuiltHasProblem == m.built <=> m.prob # NoProb
\* refused and invalid calls change nothing; building never touches results
CallLaws == \A a \in Actions :
   /\ Out(m, a) \in {"refused", "invalid"} => Apply(m, a) = m
   /\ a.call = "build" => Apply(m, a).res = m.res /\ Apply(m, a).solved = m.solved
   /\ a.call = "solve" /\ m.res.kind = "full" /\ ~a.force => Apply(m, a).res = m.res
   /\ (a.call = "solve" /\ ~m.built) => Apply(m, a) = m
=============================================================================
