----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* P05.  The life of a Model: initialised, built, solved, re-built,        *)
(* re-solved, saved and reloaded; refused calls; calls that fail.          *)
(* The model solved is a two-node problem: minimise / maximise v, with     *)
(* need <= v <= 10 (infeasible when need > 10), or maximise an unbounded   *)
(* variable; w is pinned at 1e-6 (dropped when zero_threshold > 1e-6).     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* An option that a call does not pass is "-".
Pick(new, old) == IF new = "-" THEN old ELSE new

NoProb == [obj |-> "-", be |-> "-", need |-> 0]
NoRes  == [kind |-> "none", obj |-> "-", need |-> 0, thr |-> "-", sp |-> "-"]
EmptyRes == [NoRes EXCEPT !.kind = "empty"]

Initial(cfg) == [built |-> FALSE, solved |-> FALSE, cfg |-> cfg, prob |-> NoProb, res |-> NoRes, term |-> {"None"}]

NEED == 3     \* in the inputs

\* --- outcome of solving problem p under configuration c -------------------
Feasible(p) == p.need <= 10
Terms(p) == IF ~Feasible(p) THEN {"infeasible", "inf_or_unbd", "infeasibleOrUnbounded"} \cup
                                 (IF p.obj = "ounb" THEN {"unbounded", "other", "noSolution"} ELSE {})
            ELSE IF p.obj = "ounb" THEN {"unbounded", "inf_or_unbd", "infeasibleOrUnbounded"}
            ELSE {"optimal"}
\* shadow prices cannot be read from cbc
SpOn(p, c) == c.sp = "c" /\ ~(p.be = "pyomo" /\ c.solver = "cbc")
Solved(p, c) == IF Terms(p) = {"optimal"}
                THEN [kind |-> "full", obj |-> p.obj, need |-> p.need, thr |-> c.thr, sp |-> IF SpOn(p, c) THEN "c" ELSE "none"]
                ELSE EmptyRes

\* --- calls ------------------------------------------------------------------
\* what : "ok" the call succeeds | "refused" | "invalid" (options rejected) |
\*        "failed" (an error half-way)
BuildCfg(m, a) == [m.cfg EXCEPT !.obj = Pick(a.obj, @), !.be = Pick(a.be, @), !.ef = Pick(a.ef, @)]
SolveCfg(m, a) == [m.cfg EXCEPT !.solver = Pick(a.solver, @), !.thr = Pick(a.thr, @), !.sp = Pick(a.sp, @)]

BuildOut(m, a) == IF m.built /\ ~a.force THEN "refused"
                  ELSE IF a.be = "nope" THEN "invalid"
                  ELSE IF BuildCfg(m, a).obj = "nope" \/ BuildCfg(m, a).ef = "bad" THEN "failed"
                  ELSE "ok"
SolveOut(m, a) == IF ~m.built THEN "refused"
                  ELSE IF m.res.kind = "full" /\ ~a.force THEN "refused"
                  ELSE IF a.thr = "nope" THEN "invalid"
                  ELSE IF m.prob.be = "pyomo" /\ SolveCfg(m, a).solver = "nope" THEN "failed"
                  ELSE "ok"

Out(m, a) == CASE a.call = "build" -> BuildOut(m, a)
               [] a.call = "solve" -> SolveOut(m, a)
               [] a.call = "update" -> IF m.built THEN "ok" ELSE "na"
               [] a.call = "objective" -> IF ~m.built THEN "na" ELSE IF a.obj = "nope" THEN "invalid" ELSE "ok"
               [] OTHER -> "ok"

Apply(m, a) ==
  LET o == Out(m, a) IN
  IF o \in {"refused", "invalid", "na"} THEN m
  ELSE CASE a.call = "build" /\ o = "ok" ->
              [m EXCEPT !.built = TRUE, !.cfg = BuildCfg(m, a),
                        !.prob = [obj |-> BuildCfg(m, a).obj, be |-> BuildCfg(m, a).be, need |-> NEED]]
         [] a.call = "build" /\ o = "failed" -> [m EXCEPT !.built = FALSE, !.cfg = BuildCfg(m, a), !.prob = NoProb]
         [] a.call = "solve" /\ o = "ok" ->
              [m EXCEPT !.solved = TRUE, !.cfg = SolveCfg(m, a), !.res = Solved(m.prob, SolveCfg(m, a)), !.term = Terms(m.prob)]
         [] a.call = "solve" /\ o = "failed" -> [m EXCEPT !.cfg = SolveCfg(m, a)]
         [] a.call = "update" -> [m EXCEPT !.prob.need = a.need]
         [] a.call = "objective" -> [m EXCEPT !.prob.obj = a.obj]
         [] a.call = "save" -> m
         [] a.call = "reload" -> [m EXCEPT !.built = FALSE, !.prob = NoProb, !.res = IF @.kind = "empty" THEN @ ELSE @]
=============================================================================
