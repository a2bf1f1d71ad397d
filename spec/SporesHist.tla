----------------------------- MODULE SporesHist -----------------------------
(* What a user does: run some alternatives, continue up to a higher number,
   start over, save and reload, change the costs in the built model, or begin
   with the results of a model in base mode.  Every history that ends with a
   run is emitted and replayed.                                              *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Max, Top
VARIABLES n, changed, hist
Op(o, k) == [op |-> o, n |-> k]
Do(o, k, n2, c) == Len(hist) < Max /\ hist' = Append(hist, Op(o, k)) /\ n' = n2 /\ changed' = c
LastOp == IF hist = <<>> THEN "-" ELSE hist[Len(hist)].op
Init == n = 0 /\ changed = FALSE /\ hist = <<>>
Run == \E k \in 1..(Top - 1) : Do("run", k, k, FALSE)
Skip == hist = <<>> /\ \E k \in 1..(Top - 1) : Do("skip", k, k, FALSE)
\* continuing makes sense with the costs of the baseline
Continue == n > 0 /\ ~changed /\ \E k \in (n + 1)..Top : Do("continue", k, k, FALSE)
Reload == n > 0 /\ ~changed /\ LastOp # "reload" /\ Do("reload", 0, n, FALSE)
Change == n > 0 /\ ~changed /\ LastOp # "reload" /\ Do("change", 0, n, TRUE)
Next == Run \/ Skip \/ Continue \/ Reload \/ Change
Spec == Init /\ [][Next]_<<n, changed, hist>>
Ends == LastOp \in {"run", "continue", "skip"}
Emitted == (Ends /\ Len(hist) >= 2) => PrintT(ToJson([hist |-> hist]))
Sound == \A k \in 1..Len(hist) : hist[k].op = "continue" => \E j \in 1..(k - 1) : hist[j].op \in {"run", "skip", "continue"} /\ hist[j].n < hist[k].n
=============================================================================
