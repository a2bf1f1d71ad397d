------------------------------ MODULE SporesMC ------------------------------
(* The search for alternatives as a machine, explored for small systems: every
   alternative is any vertex that is optimal for the current score.          *)
EXTENDS SporesCore
CONSTANTS N
VARIABLES sys, alg, slack, hist, score
vars == <<sys, alg, slack, hist, score>>
Slot(n, c, m, t) == [node |-> n, cost |-> c, max |-> m, track |-> t, sink |-> FALSE]
Sink(n, d, t) == [node |-> n, cost |-> 0, max |-> d, track |-> t, sink |-> TRUE]
Systems == {[slots |-> <<Slot(1, 1, 160, TRUE), Slot(1, c, 240, t), Slot(1, 6, m, TRUE), Sink(1, 240, u)>>, dem |-> <<240>>] : c \in {1, 2}, t, u \in BOOLEAN, m \in {160, 320}}
        \cup {[slots |-> <<Slot(1, 1, 160, t), Slot(1, 2, 160, TRUE), Slot(2, 2, 80, TRUE), Slot(2, 6, 160, t)>>, dem |-> <<160, 160>>] : t \in BOOLEAN}
Factor == <<1, 10>>
Zero(s) == [i \in Slots(s) |-> 0]
Init == /\ sys \in Systems /\ alg \in {"integer", "relative_deployment"} /\ slack \in {<<0, 1>>, <<1, 4>>, <<1, 1>>} /\ score = Zero(sys)
        /\ hist \in {<<x>> : x \in {y \in Vertices(sys, Big) : Cost(sys, y) = Least(sys, Costs(sys), Big)}}
B == Budget(Cost(sys, hist[1]), slack)
Inc(x) == IF alg = "integer" THEN Integer_(sys, x, Factor) ELSE Relative(sys, x, Factor)
Next == /\ Len(hist) <= N
        /\ score' = Plus(score, Inc(hist[Len(hist)]))
        /\ \E x \in Vertices(sys, B) : Value(sys, score', x) = Least(sys, score', B) /\ hist' = Append(hist, x)
        /\ UNCHANGED <<sys, alg, slack>>
Spec == Init /\ [][Next]_vars
\* what was optimal before stays possible: there always is a next alternative
Alive == hist[1] \in Vertices(sys, B) /\ \A k \in 1..Len(hist) : Cost(sys, hist[k]) <= B
\* the score is what the alternatives so far make it, however the run was split
RECURSIVE Fold(_)
Fold(k) == IF k = 0 THEN Zero(sys) ELSE Plus(Fold(k - 1), Inc(hist[k]))
Derived == score = Fold(Len(hist) - 1)
OnlyTracked == \A i \in Slots(sys) : i \notin Tracked(sys) => score[i] = 0
\* an alternative is not worse than any other that is known
Best == Len(hist) = 1 \/ \A k \in 1..Len(hist) : Value(sys, score, hist[Len(hist)]) <= Value(sys, score, hist[k])
NoSlack == (slack = <<0, 1>>) => \A k \in 1..Len(hist) : Cost(sys, hist[k]) = Cost(sys, hist[1])
Monotone == [][\A i \in Slots(sys) : score'[i] >= score[i]]_vars
=============================================================================
