----------------------------- MODULE OperateMC -----------------------------
(* The rolling horizon as a machine, explored for a family of small systems:
   in every window any optimal dispatch of its horizon may be chosen, and what
   is kept of it decides where the next window starts.                       *)
EXTENDS OperateCore
CONSTANTS N, P
VARIABLES sys, cfg, win, pos, lev, spent, goal, done
vars == <<sys, cfg, win, pos, lev, spent, goal, done>>
Systems == {[ts |-> [k \in 1..N |-> (k - 1) * 60], dem |-> <<d>>, price |-> <<p>>, cap |-> <<[k \in 1..N |-> c]>>,
             batcap |-> <<b>>, batflow |-> <<f>>, init |-> <<i>>, link |-> 0] :
            d \in [1..N -> {0, 2}], p \in [1..N -> P], c \in {3}, b \in {2}, f \in {1, 2}, i \in {0, 1}}
Cfgs == {c \in {60, 90, 120, 300} \X {60, 120, 150, 300} : c[1] <= c[2]}
J(from) == ToGo(sys, from, Last(Horizon(sys, cfg[1], cfg[2], win)))
Init == sys \in Systems /\ cfg \in Cfgs /\ win = 1 /\ pos = 1 /\ lev = sys.init /\ spent = 0 /\ done = <<>>
        /\ goal = ToGo(sys, 1, Last(Horizon(sys, cfg[1], cfg[2], 1)))[sys.init]
\* one timestep of the kept part of the current window
Step == /\ win <= NWindows(sys, cfg[1]) /\ pos \in Kept(sys, cfg[1], win)
        /\ \E d \in Rises(sys) :
             /\ Plus(lev, d) \in Levels(sys)
             /\ StepCost(sys, pos, d) + J(pos + 1)[Plus(lev, d)] = goal
             /\ lev' = Plus(lev, d) /\ spent' = spent + StepCost(sys, pos, d)
             /\ goal' = goal - StepCost(sys, pos, d)
        /\ pos' = pos + 1 /\ done' = Append(done, <<win, pos>>) /\ UNCHANGED <<sys, cfg, win>>
Roll == /\ win < NWindows(sys, cfg[1]) /\ pos \notin Kept(sys, cfg[1], win)
        /\ win' = win + 1
        /\ goal' = ToGo(sys, pos, Last(Horizon(sys, cfg[1], cfg[2], win + 1)))[lev]
        /\ UNCHANGED <<sys, cfg, pos, lev, spent, done>>
Next == Step \/ Roll
Spec == Init /\ [][Next]_vars
End == pos > N
\* every timestep once, in order, each from the window it belongs to
Tiled == \A k \in 1..Len(done) : done[k][2] = k /\ k \in Kept(sys, cfg[1], done[k][1]) /\ k \in Horizon(sys, cfg[1], cfg[2], done[k][1])
Partition == pos = 1 => \A j \in Steps(sys) : Cardinality({k \in 1..NWindows(sys, cfg[1]) : j \in Kept(sys, cfg[1], k)}) = 1
\* no window is stuck, foresight never costs more, and seeing everything is foresight
Feasible == goal < Inf
Ideal == ToGo(sys, 1, N)[sys.init]
Foresight == End => spent >= Ideal
Whole == End /\ cfg[2] >= N * 60 => spent = Ideal
Finishes == (~ ENABLED Next) => End
=============================================================================
