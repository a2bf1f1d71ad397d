--------------------------- MODULE LifecycleTrace ---------------------------
(* Judges recorded lives of real Model objects, call by call.               *)
EXTENDS Lifecycle, Json, IOUtils

Recs == JsonDeserialize(IOEnv.RECS)

\* s.act : the call; s.obs : what was observed after it
ObsFails(m, n, s) ==
  LET o == Out(m, s.act) IN
  IF s.act.call = "solve" /\ o = "ok" /\ ~s.obs.ok THEN {"SolveAccepted"}
  ELSE IF s.act.call # "solve" /\ o = "ok" /\ ~s.obs.ok THEN {"CallAccepted"}
  ELSE
  (IF o \in {"refused", "invalid", "failed"} /\ s.obs.ok THEN {"Refused"} ELSE {}) \cup
  (IF o \in {"refused", "invalid"} /\ ~s.obs.same THEN {"RefusedChangesNothing"} ELSE {}) \cup
  (IF s.obs.built = n.built THEN {} ELSE {"BuiltReported"}) \cup
  (IF s.obs.solved = n.solved THEN {} ELSE {"SolvedReported"}) \cup
  (IF s.obs.term \in n.term THEN {} ELSE {"Termination"}) \cup
  (IF o = "failed" THEN {}
   ELSE (IF s.obs.cfg.obj = n.cfg.obj /\ s.obs.cfg.be = n.cfg.be /\ s.obs.cfg.ef = n.cfg.ef THEN {} ELSE {"BuildOptionsRecorded"}) \cup
        (IF s.obs.cfg.solver = n.cfg.solver /\ s.obs.cfg.thr = n.cfg.thr /\ s.obs.cfg.sp = n.cfg.sp THEN {} ELSE {"SolveOptionsRecorded"})) \cup
  (IF n.built /\ s.obs.be # n.prob.be THEN {"BackendInEffect"} ELSE {}) \cup
  (IF n.res.kind = "full"
   THEN IF s.obs.nvars = 0 THEN {"ResultsStored"}
        ELSE (IF s.obs.v = ToString(IF n.res.obj = "omin" THEN n.res.need ELSE 10) THEN {} ELSE {"ResultsOfThisProblem"}) \cup
             (IF s.obs.w = (IF n.res.thr = "1e-3" THEN "0" ELSE "1e-06") THEN {} ELSE {"ZeroThreshold"}) \cup
             (IF s.obs.sp = (IF n.res.sp = "none" THEN "none" ELSE IF n.res.obj = "omin" THEN "1" ELSE "0") THEN {} ELSE {"ShadowPrices"})
   ELSE IF s.obs.nvars = 0 THEN {} ELSE {"NoResults"}) \cup
  (IF s.act.call \in {"build", "update", "objective", "save", "reload"} /\ ~s.obs.sameres THEN {"ResultsUntouched"} ELSE {})

\* After a failing call the configuration may or may not hold its options.
Sync(m, n, s) == IF Out(m, s.act) = "failed" THEN [n EXCEPT !.cfg = s.obs.cfg] ELSE n

RECURSIVE Walk(_, _, _)
Walk(r, k, m) == IF k > Len(r.steps) THEN {}
                 ELSE LET s == r.steps[k]  n == Apply(m, s.act)  f == ObsFails(m, n, s)
                      IN IF f # {} THEN f ELSE Walk(r, k + 1, Sync(m, n, s))
Fails(r) == Walk(r, 1, Initial(r.cfg))

VARIABLE i
Init == i = 0
Next == /\ i < Len(Recs)
        /\ i' = i + 1
        /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        /\ (i + 1 = Len(Recs)) => PrintT(ToJson([done |-> i + 1]))
Spec == Init /\ [][Next]_i
=============================================================================
