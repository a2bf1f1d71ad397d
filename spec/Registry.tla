------------------------------ MODULE Registry ------------------------------
(* The optimisation problem as a state machine: components are added and
   deleted, inputs and variable bounds are updated, the objective is switched,
   variables are fixed. The state is the data and the list of components; the
   problem that is handed over is always the one that these denote (Sem.tla).
   A record: id, m (model record), taken (names of inputs and dimensions), be
   (backend), steps (what was done, what was observed), dropped (uids of the
   components that were refused or hold undefined values).
   State: m, comps, pr (the problem denoted), obj (name of the objective),
   bnd / fix : variable id -> changed bounds / fixed value                     *)
EXTENDS Sem, Json, IOUtils
Recs == JsonDeserialize(IOEnv.RECS)

Fn0 == [x \in {} |-> 0]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]

Start(r) == [m |-> TLCEval(Clean(r.m)), comps |-> <<>>, pr |-> NoProblem(Rng(r.dropped)), obj |-> r.m.objective, bnd |-> Fn0, fix |-> Fn0]
Comp(s, n) == CHOOSE c \in Rng(s.comps) : c.name = n
Is(s, n, kind) == \E c \in Rng(s.comps) : c.name = n /\ c.kind = kind
Registered(s, n) == \E c \in Rng(s.comps) : c.name = n
VarIds(s) == {w.id : w \in s.pr.vars}

(***** what a definition refers to *****)
RECURSIVE RefsE(_), RefsS(_)
RefsS(x) == IF x[1] = "ref" THEN {x[2]} ELSE {}
RefsE(e) ==
  CASE e[1] = "ref" -> {e[2]}
    [] e[1] = "sl" -> {e[2]}
    [] e[1] \in {"neg", "pos", "sum", "roll", "nextn", "redc", "gdt"} -> RefsE(e[2])
    [] e[1] \in {"where", "gsum"} -> RefsE(e[2]) \cup {e[3]}
    [] e[1] = "lookup" -> RefsE(e[2]) \cup {e[3][d] : d \in DOMAIN e[3]}
    [] e[1] \in {"+", "-", "*", "/", "**", "<=", ">=", "=="} -> RefsE(e[2]) \cup RefsE(e[3])
    [] OTHER -> {}
RefsC(c) ==
  IF c.kind = "variables" THEN {}
  ELSE UNION {RefsE(c.equations[k].expression) : k \in 1..Len(c.equations)}
       \cup UNION {UNION {RefsE(c.sub_expressions[s][k].expression) : k \in 1..Len(c.sub_expressions[s])} : s \in DOMAIN c.sub_expressions}

(***** adding *****)
\* "nothing": an inactive definition; "refused": the state is as before
AddOutcome(s, r, c) ==
  IF ~c.active THEN "nothing"
  ELSE IF c.name \in Rng(r.taken) \/ Registered(s, c.name) THEN "refused"
  ELSE IF ~(RefsC(c) \subseteq (DOMAIN s.pr.env \cup DOMAIN s.m.inputs)) THEN "refused"
  ELSE "asked"
Added(s, c) == Step(s.m, s.pr, c, s.obj)

(***** deleting *****)
Deleted(s, n, kind) ==
  IF ~Is(s, n, kind) THEN s
  ELSE [s EXCEPT !.comps = SelectSeq(s.comps, LAMBDA c : c.name # n),
                 !.pr = [s.pr EXCEPT !.env = Without(@, {n}), !.members = Without(@, {n}),
                                     !.rows = {w \in @ : w.id[1] # n}, !.vars = {w \in @ : w.id[1] # n},
                                     !.obj = IF kind = "objectives" /\ n = s.obj THEN Const(RZero) ELSE @,
                                     !.sense = IF kind = "objectives" /\ n = s.obj THEN "-" ELSE @],
                 !.bnd = [x \in {y \in DOMAIN @ : y[1] # n} |-> @[x]],
                 !.fix = [x \in {y \in DOMAIN @ : y[1] # n} |-> @[x]]]

(***** updating inputs: what is mentioned is replaced (over all items of the dimensions that are not
   mentioned), everything else keeps its value *****)
NewInput(s, u) ==
  LET p == s.m.inputs[u.name]
      ds == p.dims \o SelectSeq(u.dims, LAMBDA d : d \notin Rng(p.dims))
      idx == Rng(Extend(s.m, ds, NoIdx))
      New(i) == KeyOf(u.dims, i) \in DOMAIN u.vals
      Old(i) == KeyOf(p.dims, i) \in DOMAIN p.vals
      keep == {i \in idx : New(i) \/ Old(i)}
      vals == [k \in {KeyOf(ds, i) : i \in keep} |->
                 LET i == CHOOSE j \in keep : KeyOf(ds, j) = k IN IF New(i) THEN u.vals[KeyOf(u.dims, i)] ELSE p.vals[KeyOf(p.dims, i)]]
  IN [p EXCEPT !.dims = IF keep = {} THEN <<>> ELSE ds, !.vals = TLCEval(vals)]
\* variables that are built anew keep their changes where they still exist
Rebuilt(s, m2, dropped) == TLCEval(Run(m2, s.comps, 1, NoProblem(dropped), s.obj))
WithInput(s, u) == [s.m EXCEPT !.inputs = [@ EXCEPT ![u.name] = TLCEval(NewInput(s, u))]]
Updated(s, m2, pr2) == LET ids == {w.id : w \in pr2.vars} IN [s EXCEPT !.m = m2, !.pr = [pr2 EXCEPT !.dropped = s.pr.dropped], !.bnd = Only(@, ids), !.fix = Only(@, ids)]

(***** bounds, objective, fixing *****)
\* the index behind a variable id
IdxOf(c, id) == [d \in Rng(c.foreach) |-> id[1 + Pos(c.foreach, d)]]
Chosen(s, n, u) == LET c == Comp(s, n) IN {id \in VarIds(s) : id[1] = n /\ KeyOf(u.dims, IdxOf(c, id)) \in DOMAIN u.vals}
ValAt(s, n, u, id) == u.vals[KeyOf(u.dims, IdxOf(Comp(s, n), id))]
Literal(c, side) == (IF side = "lb" THEN c.lb ELSE c.ub)[1] # "ref"
RECURSIVE Bounded(_, _, _)
Bounded(s, n, us) ==
  IF us = <<>> THEN s
  ELSE LET u == us[1]
           ids == Chosen(s, n, u)
           old(id) == IF id \in DOMAIN s.bnd THEN s.bnd[id] ELSE Fn0
           new == [id \in ids |-> Over(old(id), [x \in {u.side} |-> ValAt(s, n, u, id)])]
       IN Bounded([s EXCEPT !.bnd = Over(@, new)], n, Tail(us))
Objected(s, n) == [s EXCEPT !.obj = n, !.pr = Step(s.m, [s.pr EXCEPT !.obj = Const(RZero), !.sense = "-"], Comp(s, n), n)]
Appropriate(s, n) == Is(s, n, "objectives") /\ s.pr.members[n] # {}
\* fixing takes the values of the last solution: sol is a sequence of <<id, num, den>>
ValueIn(sol, id) == LET k == CHOOSE i \in 1..Len(sol) : sol[i][1] = id IN <<sol[k][2], sol[k][3]>>
HasValue(sol, id) == \E i \in 1..Len(sol) : sol[i][1] = id
FixIds(s, u) == IF u.all THEN {id \in VarIds(s) : id[1] = u.name} ELSE Chosen(s, u.name, u)
Fixed(s, u, sol) ==
  LET ids == FixIds(s, u) IN
  IF u.be = "gurobi" THEN [s EXCEPT !.bnd = Over(@, [id \in ids |-> LET v == ValueIn(sol, id) IN [lb |-> <<"n", v[1], v[2]>>, ub |-> <<"n", v[1], v[2]>>]])]
  ELSE [s EXCEPT !.fix = Over(@, [id \in ids |-> ValueIn(sol, id)])]
Unfixed(s, u) == [s EXCEPT !.fix = Without(@, FixIds(s, u))]

(***** what the problem looks like from outside *****)
FixedPart(s, t) == LET ids == DOMAIN t \cap DOMAIN s.fix
                       RECURSIVE Sum(_)
                       Sum(S) == IF S = {} THEN RZero ELSE LET x == CHOOSE y \in S : TRUE IN RAdd(RMul(t[x], s.fix[x]), Sum(S \ {x}))
                   IN Sum(ids)
View(s) ==
  LET fx == DOMAIN s.fix IN
  [s.pr EXCEPT
    !.vars = {[w EXCEPT !.lb = IF w.id \in DOMAIN s.bnd /\ Has(s.bnd[w.id], "lb") THEN s.bnd[w.id].lb ELSE @,
                        !.ub = IF w.id \in DOMAIN s.bnd /\ Has(s.bnd[w.id], "ub") THEN s.bnd[w.id].ub ELSE @] : w \in {x \in @ : x.id \notin fx}},
    !.rows = {[w EXCEPT !.rhs = RAdd(@, RNeg(FixedPart(s, w.terms))), !.terms = Without(@, fx)] : w \in @},
    !.obj = IF IsNaN(@) THEN @ ELSE <<"lin", RAdd(@[2], FixedPart(s, @[3])), Without(@[3], fx), FALSE>>]

Listed(o, n) == {i \in 1..Len(o.listed) : o.listed[i].name = n}
KindOf(s, n) == Comp(s, n).kind
MembersOk(s, o) ==
  /\ \A n \in DOMAIN s.pr.members : Cardinality(Listed(o, n)) = 1
       /\ \A i \in Listed(o, n) : Rng(o.listed[i].ids) = s.pr.members[n] /\ o.listed[i].kind = KindOf(s, n)
  /\ \A i \in 1..Len(o.listed) : o.listed[i].name \in DOMAIN s.pr.members
\* reading an input back
InputOk(s, o) ==
  \A i \in 1..Len(o.inputs) :
    LET g == o.inputs[i] p == s.m.inputs[g.name]
        idx == Rng(Extend(s.m, g.dims, NoIdx))
    IN /\ Rng(p.dims) = Rng(g.dims)
       /\ \A j \in idx : LET kp == KeyOf(p.dims, j) kg == KeyOf(g.dims, j) IN
            IF kp \in DOMAIN p.vals THEN kg \in DOMAIN g.vals /\ g.vals[kg] = p.vals[kp] ELSE kg \notin DOMAIN g.vals
\* reading variable bounds back
BoundsOk(s, v, o) ==
  \A i \in 1..Len(o.bounds) :
    LET g == o.bounds[i] w == CHOOSE x \in v.vars : x.id = g.id
    IN g.id \in {x.id : x \in v.vars} => BoundOk(w, w.lb, g.lb, "lb") /\ BoundOk(w, w.ub, g.ub, "ub")
SeenFails(s, o) ==
  LET v == TLCEval(View(s)) IN
  (IF MembersOk(s, o) THEN {} ELSE {"MembersExactlyThoseOfTheComponents"}) \cup
  (IF InputOk(s, o) THEN {} ELSE {"InputsReadAsUpdated"}) \cup
  (IF BoundsOk(s, v, o) THEN {} ELSE {"BoundsReadAsUpdated"}) \cup
  (IF o.active = s.obj THEN {} ELSE {"ActiveObjectiveName"}) \cup
  (IF ~o.haslp THEN {} ELSE LPFails(s.m, v, o.lp) \cup (IF v.sense = "-" /\ \E t \in Rng(o.lp.obj) : t[2] # 0 THEN {"NoObjectiveLeftBehind"} ELSE {}))

(***** a recorded step *****)
\* [s |-> next state, fails |-> broken clauses, stop |-> the rest of the trace is not judged]
To(s) == [s |-> s, fails |-> {}, stop |-> FALSE]
Bad1(s, c) == [s |-> s, fails |-> {c}, stop |-> TRUE]
Expect(o, want, s, s2) == IF o.out = want THEN To(IF want = "ok" THEN s2 ELSE s) ELSE Bad1(s, IF want = "ok" THEN "LegitimateCallAccepted" ELSE "UnlawfulCallRefused")
Judge(r, s, x) ==
  LET o == x.obs u == x.act IN
  CASE u.op = "add" ->
         LET w == AddOutcome(s, r, u.c) IN
         IF w = "nothing" THEN (IF u.c.name \in Rng(r.taken) \/ Registered(s, u.c.name) THEN To(s) ELSE Expect(o, "ok", s, s))
         ELSE IF w = "refused" THEN Expect(o, "refused", s, s)
         ELSE LET p2 == TLCEval(Added(s, u.c)) IN
              IF u.c.uid \in p2.refused THEN Expect(o, "refused", s, s)
              ELSE Expect(o, "ok", s, [s EXCEPT !.comps = Append(@, u.c), !.pr = p2])
    [] u.op = "delete" -> Expect(o, "ok", s, Deleted(s, u.name, u.kind))
    [] u.op = "input" ->
         IF u.name \notin DOMAIN s.m.inputs THEN Expect(o, "refused", s, s)
         ELSE LET m2 == TLCEval(WithInput(s, u)) pr2 == Rebuilt(s, m2, {}) IN
              IF o.out = "ok" THEN (IF pr2.refused = {} THEN To(Updated(s, m2, pr2)) ELSE Bad1(s, "UpdateToAnInvalidProblemRefused"))
              ELSE IF pr2.refused # {} \/ Rebuilt(s, m2, {c.uid : c \in Rng(s.comps)}).refused # {} THEN [s |-> s, fails |-> {}, stop |-> TRUE]
              ELSE Bad1(s, "LegitimateCallAccepted")
    [] u.op = "bounds" ->
         IF Is(s, u.name, "variables") /\ \A i \in 1..Len(u.sides) : Literal(Comp(s, u.name), u.sides[i].side)
         THEN Expect(o, "ok", s, Bounded(s, u.name, u.sides)) ELSE Expect(o, "refused", s, s)
    [] u.op = "objective" -> IF Appropriate(s, u.name) THEN Expect(o, "ok", s, Objected(s, u.name)) ELSE Expect(o, "refused", s, s)
    [] u.op = "solve" -> To(s)
    [] u.op = "fix" ->
         IF ~Is(s, u.name, "variables") THEN Expect(o, "refused", s, s)
         ELSE LET all == \A id \in FixIds(s, u) : HasValue(x.sol, id)
                  \* "stale": there is a solution, but not of this problem
                  may == u.solved # "never" /\ all
                  must == u.solved = "fresh" /\ all /\ FixIds(s, u) # {}
              IN IF o.out = "ok" THEN (IF FixIds(s, u) = {} THEN To(s) ELSE IF may THEN To(Fixed(s, u, x.sol)) ELSE Bad1(s, "UnlawfulCallRefused"))
                 ELSE IF must THEN Bad1(s, "LegitimateCallAccepted") ELSE To(s)
    [] u.op = "unfix" -> IF Is(s, u.name, "variables") /\ u.be = "pyomo" THEN Expect(o, "ok", s, Unfixed(s, u)) ELSE Expect(o, "refused", s, s)
RECURSIVE Go(_, _, _)
Go(r, s, k) ==
  IF k > Len(r.steps) THEN {}
  ELSE LET j == TLCEval(Judge(r, s, r.steps[k]))
           f == IF j.stop THEN j.fails ELSE TLCEval(j.fails \cup SeenFails(j.s, r.steps[k].obs))
       IN IF f # {} THEN {c \o "@" \o r.steps[k].act.op \o ToString(k) : c \in f}
          ELSE IF j.stop THEN {} ELSE Go(r, j.s, k + 1)
Fails(r) == Go(r, Start(r), 1)

VARIABLE i
Init == i = 0
Next == \/ i < Len(Recs) /\ i' = i + 1
           /\ LET f == Fails(Recs[i + 1]) IN f = {} \/ PrintT(ToJson([verdict |-> i + 1, clauses |-> f]))
        \/ i = Len(Recs) /\ i' = i + 1 /\ PrintT(ToJson([done |-> Len(Recs)]))
Spec == Init /\ [][Next]_i
=============================================================================
