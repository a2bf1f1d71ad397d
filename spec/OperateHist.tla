---------------------------- MODULE OperateHist ----------------------------
(* What a user does to a model in operate mode: builds it with windows, solves
   it, solves it again, builds it with other windows, saves and reloads it.
   Every history that ends with a solution is emitted and replayed.          *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANT Max
VARIABLES built, solved, hist
Do(op, cfg, b, s) == Len(hist) < Max /\ hist' = Append(hist, [op |-> op, cfg |-> cfg]) /\ built' = b /\ solved' = s
LastOp == IF hist = <<>> THEN "-" ELSE hist[Len(hist)].op
Init == built = 0 /\ solved = FALSE /\ hist = <<>>
Build == \E c \in {1, 2} : (c = 1 \/ hist # <<>>) /\ LastOp # "build" /\ Do("build", c, c, solved)
\* the horizon is shorter than the window: refused
BadBuild == LastOp # "bad" /\ Do("bad", 3, 0, solved)
Solve == built # 0 /\ Do("solve", built, built, TRUE)
SolveSP == built # 0 /\ Do("solvesp", built, built, TRUE)
Reload == solved /\ LastOp # "reload" /\ Do("reload", 0, 0, solved)
Next == Build \/ BadBuild \/ Solve \/ SolveSP \/ Reload
Spec == Init /\ [][Next]_<<built, solved, hist>>
Emitted == (Len(hist) = Max /\ LastOp \in {"solve", "solvesp"}) => PrintT(ToJson([hist |-> hist]))
BuiltBeforeSolved == \A k \in 1..Len(hist) : hist[k].op \in {"solve", "solvesp"} =>
  \E j \in 1..(k - 1) : hist[j] = [op |-> "build", cfg |-> hist[k].cfg] /\ \A l \in (j + 1)..(k - 1) : hist[l].op \in {"solve", "solvesp"}
=============================================================================
