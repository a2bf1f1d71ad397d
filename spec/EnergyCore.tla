----------------------------- MODULE EnergyCore -----------------------------
(* P17: what a solved energy system has to satisfy, whatever is optimal in it.

   A system sys:
     T, res (hours per step), w (weight per step), day (day of each step),
     clustered, nodes, carriers, feas, bigM, classes (of costs),
     avail (node -> area or NONE), wide (<<[tech, max, min, umax, umin]>>)
   and its instances inst (a technology at a node), records p with
     tech, node, base, cin, cout, cexp (sequences of carriers), st (has storage),
     T-sequences in percent: ieff, oeff, seff; percentages: paras, minrel, ramp,
     loss, init, depth, fpsmin, fpsmax, aper (NONE: not given); T-sequences
     srceq, srcmax, srcmin, snkeq, snkmax, snkmin (NONE: not given); units sunit, kunit;
     capmin, capmax, stmin, stmax, scmin, scmax, sceq, amin, amax, exmin, exmax,
     dist, iepd, oepd (links), cyclic, hasinit, area (has the variable),
     integer technologies: int, disp, async, umin, umax, fcpu, scpu,
     cost (class -> [cap, dist, stor, src, area, omcap, omfrac, buy, buyd, dep,
     life, rate : investment in 8760ths; out, in, exp, use : T-sequences])
   A solution o: per instance fin, fout, fexp, avail (carrier -> T-sequence), cap (per
     carrier), stor, src, oper (T-sequences), scap, srccap, area, units, cost
     (class -> [inv, ann, fix, var (T-sequence), total]), cf (carrier -> T-sequence);
     unmet, unused (node -> carrier -> T-sequence), weights (class -> Int), obj,
     gen (tech -> carrier -> Int).
   Quantities are in units of 1/10000, investments and costs in 1/100.        *)
EXTENDS Integers, Sequences, FiniteSets
NONE == -1
INF == 1000000000
U == 10000
Tol == 20
CTol == 30
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a < b THEN b ELSE a
Eq(a, b) == Abs(a - b) <= Tol
Le(a, b) == a <= b + Tol
\* p percent of x, x divided by p percent, without large numbers on the way
Pct(x, p) == (x \div 100) * p + ((x % 100) * p + 50) \div 100
Div(x, p) == (x \div p) * 100 + ((x % p) * 100 + p \div 2) \div p
RECURSIVE Pow(_, _, _)
Pow(x, p, n) == IF n = 0 THEN x ELSE Pow(Pct(x, p), p, n - 1)
RECURSIVE Unpow(_, _, _)
Unpow(x, p, n) == IF n = 0 THEN x ELSE Unpow(Div(x, p), p, n - 1)
\* f ten thousandths of x
Part(x, f) == (x \div U) * f + ((x % U) * f) \div U
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Rng(s) == {s[i] : i \in DOMAIN s}
\* positions of the elements, so that sums do not merge equal terms
Total(s) == Sum(s, DOMAIN s)
Bad(law, ok) == IF ok THEN {} ELSE {law}
Lim(x) == IF x = INF \/ x = NONE THEN x ELSE x * U

Steps(s) == 1..s.T
Insts(s) == 1..Len(s.inst)
Link(p) == p.base = "transmission"

\* what reaches or leaves the technology itself
OutInc(p, o, c, t) == LET x == Div(Div(o.fout[c][t], p.oeff[t]), p.paras) IN IF Link(p) THEN Unpow(x, p.oepd, p.dist) ELSE x
InInc(p, o, c, t) == LET x == Pct(o.fin[c][t], p.ieff[t]) IN IF Link(p) THEN Pow(x, p.iepd, p.dist) ELSE x
SumOut(p, o, t) == Sum([c \in Rng(p.cout) |-> OutInc(p, o, c, t)], Rng(p.cout))
SumIn(p, o, t) == Sum([c \in Rng(p.cin) |-> InInc(p, o, c, t)], Rng(p.cin))
Scaler(p, o, unit, x) ==
  CASE unit = "absolute" -> x * U
    [] unit = "per_cap" -> x * Sum(o.cap, DOMAIN o.cap)
    [] unit = "per_area" -> x * o.area

Flows(s, p, o) ==
  Bad("FlowWithoutCarrier", \A c \in Rng(s.carriers), t \in Steps(s) :
        (c \in Rng(p.cout) \/ o.fout[c][t] = 0) /\ (c \in Rng(p.cin) \/ o.fin[c][t] = 0) /\ (c \in Rng(p.cexp) \/ o.fexp[c][t] = 0))
  \cup Bad("Sign", \A c \in Rng(s.carriers), t \in Steps(s) :
        /\ Le(0, o.fout[c][t]) /\ Le(0, o.fin[c][t]) /\ Le(0, o.fexp[c][t]) /\ Le(0, o.cap[c]) /\ Le(0, o.src[t]) /\ Le(0, o.stor[t])
        /\ Le(0, o.scap) /\ Le(0, o.srccap) /\ Le(0, o.area))
  \cup Bad("FlowOutMax", \A c \in Rng(p.cout), t \in Steps(s) : Le(o.fout[c][t], Pct((IF p.disp /\ p.fcpu # NONE THEN o.oper[t] * p.fcpu * U ELSE o.cap[c]) * s.res[t], p.paras)))
  \cup Bad("FlowInMax", \A c \in Rng(p.cin), t \in Steps(s) : Le(o.fin[c][t], (IF p.disp /\ p.fcpu # NONE THEN o.oper[t] * p.fcpu * U ELSE o.cap[c]) * s.res[t]))
  \cup Bad("FlowOutMin", p.minrel = NONE \/ \A c \in Rng(p.cout), t \in Steps(s) :
        Le(Pct((IF ~p.disp THEN o.cap[c] ELSE IF p.fcpu # NONE THEN o.oper[t] * p.fcpu * U ELSE IF o.oper[t] = 0 THEN 0 ELSE o.cap[c]) * s.res[t], p.minrel), o.fout[c][t]))
  \* a technology that is off does nothing
  \cup Bad("Off", ~p.disp \/ p.fcpu = NONE \/ \A t \in Steps(s) : o.oper[t] # 0 \/ \A c \in Rng(s.carriers) : Eq(o.fout[c][t], 0) /\ Eq(o.fin[c][t], 0))
  \cup Bad("Export", \A c \in Rng(p.cexp), t \in Steps(s) : Le(o.fexp[c][t], o.fout[c][t]) /\ Le(p.exmin * U, o.fexp[c][t]) /\ (p.exmax = INF \/ Le(o.fexp[c][t], p.exmax * U)))
  \cup Bad("Ramping", p.ramp = NONE \/ \A c \in Rng(p.cout) \cup Rng(p.cin), t \in 2..s.T :
        LET f(k) == ((IF c \in Rng(p.cout) THEN o.fout[c][k] ELSE 0) - (IF c \in Rng(p.cin) THEN o.fin[c][k] ELSE 0)) \div s.res[k]
        IN Le(Abs(f(t) - f(t - 1)), Pct(o.cap[c], p.ramp)))
  \cup Bad("Async", ~p.async \/ \A t \in Steps(s) :
        Eq(Sum([c \in Rng(p.cin) |-> o.fin[c][t]], Rng(p.cin)), 0) \/ Eq(Sum([c \in Rng(p.cout) |-> o.fout[c][t]], Rng(p.cout)), 0))

Balances(s, p, o) ==
  (IF p.base # "demand" THEN {} ELSE
    Bad("DemandMet", \A c \in Rng(p.cin), t \in Steps(s) :
      /\ p.snkeq[t] # NONE => Eq(InInc(p, o, c, t), Scaler(p, o, p.kunit, p.snkeq[t]))
      /\ p.snkeq[t] = NONE /\ p.snkmax[t] # NONE => Le(InInc(p, o, c, t), Scaler(p, o, p.kunit, p.snkmax[t]))
      /\ p.snkeq[t] = NONE /\ p.snkmin[t] # NONE => Le(Scaler(p, o, p.kunit, p.snkmin[t]), InInc(p, o, c, t))))
  \cup (IF p.base # "supply" THEN {} ELSE
    Bad("SourceAvailable", \A t \in Steps(s) :
      /\ p.srceq[t] # NONE => Eq(o.src[t], Scaler(p, o, p.sunit, p.srceq[t]))
      /\ p.srceq[t] = NONE /\ p.srcmax[t] # NONE => Le(o.src[t], Scaler(p, o, p.sunit, p.srcmax[t]))
      /\ p.srceq[t] = NONE /\ p.srcmin[t] # NONE => Le(Scaler(p, o, p.sunit, p.srcmin[t]), o.src[t]))
    \cup Bad("SourceCap", \A t \in Steps(s) : Le(o.src[t], o.srccap * s.res[t]))
    \cup Bad("SupplyBalance", p.st \/ \A c \in Rng(p.cout), t \in Steps(s) : Eq(OutInc(p, o, c, t), Pct(o.src[t], p.seff[t]))))
  \cup (IF p.base # "conversion" \/ p.st THEN {} ELSE
    Bad("ConversionBalance", \A t \in Steps(s) : Eq(SumOut(p, o, t), SumIn(p, o, t))))

\* the step before t; 0: there is none, the initial level counts
Before(s, p, t) ==
  LET same == {k \in Steps(s) : s.day[k] = s.day[t]}
      last(S) == CHOOSE k \in S : \A j \in S : j <= k IN
  IF t = 1 THEN (IF p.cyclic THEN s.T ELSE 0)
  ELSE IF s.clustered /\ \A k \in same : k >= t THEN last(same)
  ELSE t - 1
Handed(s, p, o, k) == IF k = 0 THEN Pct(o.scap, p.init) ELSE Pow(o.stor[k], 100 - p.loss, s.res[k])
Gain(s, p, o, t) == IF p.base = "supply" THEN Pct(o.src[t], p.seff[t]) - SumOut(p, o, t) ELSE SumIn(p, o, t) - SumOut(p, o, t)
Stores(s, p, o) ==
  IF ~p.st THEN {} ELSE
  Bad("StorageBalance", \A t \in Steps(s) : Eq(o.stor[t], Handed(s, p, o, Before(s, p, t)) + Gain(s, p, o, t)))
  \cup Bad("StorageMax", \A t \in Steps(s) : Le(o.stor[t], o.scap))
  \cup Bad("StorageDepth", p.depth = NONE \/ \A t \in Steps(s) : Le(Pct(o.scap, p.depth), o.stor[t]))
  \cup Bad("StorageInitialCyclic", ~(p.cyclic /\ p.hasinit) \/ Eq(Handed(s, p, o, s.T), Pct(o.scap, p.init)))

Between(lo, x, hi, n) == Le(lo * U * n, x) /\ (hi = INF \/ Le(x, hi * U * n))
Capacities(s, p, o) ==
  LET n == IF p.int THEN o.units ELSE 1 cs == Rng(p.cin) \cup Rng(p.cout) IN
  Bad("FlowCap", \A c \in cs : Between(p.capmin, o.cap[c], p.capmax, n))
  \cup Bad("StorageCap", ~p.st \/ Between(p.stmin, o.scap, p.stmax, n))
  \cup Bad("SourceCapBounds", p.base # "supply" \/ (Le(p.scmin * U * n, o.srccap) /\ (p.scmax = INF \/ Le(o.srccap, p.scmax * U))))
  \cup Bad("SourceCapIsFlowCap", ~p.sceq \/ \A c \in cs : Eq(o.srccap, o.cap[c]))
  \cup Bad("FlowPerStorage", ~p.st \/ \A c \in cs : (p.fpsmin = NONE \/ Le(Pct(o.scap, p.fpsmin), o.cap[c])) /\ (p.fpsmax = NONE \/ Le(o.cap[c], Pct(o.scap, p.fpsmax))))
  \cup (IF ~(p.area /\ o.said) THEN {} ELSE
    Bad("Area", /\ p.capmax = 0 => Eq(o.area, 0)
                /\ Le(p.amin * U * n, o.area) /\ (p.amax = INF \/ Le(o.area, p.amax * U))
                /\ p.aper # NONE => \A c \in cs : Eq(o.area, Pct(o.cap[c], p.aper))))
  \cup (IF ~p.int THEN {} ELSE
    Bad("Units", /\ o.units >= p.umin /\ (p.umax = INF \/ o.units <= p.umax)
                 /\ p.fcpu # NONE => \A c \in cs : Eq(o.cap[c], o.units * p.fcpu * U)
                 /\ p.scpu # NONE => Eq(o.scap, o.units * p.scpu * U)
                 /\ o.units = 0 => \A c \in cs : Eq(o.cap[c], 0)
                 /\ p.disp => \A t \in Steps(s) : o.oper[t] \in 0..o.units))

Hours(s) == Total([t \in Steps(s) |-> s.res[t] * s.w[t]])
\* share of an investment that counts per year, in ten thousandths
RECURSIVE Grow(_, _)
Grow(r, n) == IF n = 0 THEN 10000 ELSE (Grow(r, n - 1) * (100 + r)) \div 100
Yearly(k) ==
  IF k.dep # NONE THEN k.dep * 100
  ELSE IF k.life = NONE THEN 0
  ELSE IF k.rate \in {NONE, 0} THEN U \div k.life
  ELSE LET g == Grow(k.rate, k.life) IN (k.rate * g) \div ((g - U) \div 100)
Invest(p, o, k) ==
  LET cs == Rng(p.cin) \cup Rng(p.cout)
      caps == Sum([c \in cs |-> o.cap[c]], cs) \div 100
      half(x) == IF Link(p) THEN x \div 2 ELSE x
  IN half(caps * (k.cap + k.dist * p.dist)) + (o.scap \div 100) * k.stor + (o.srccap \div 100) * k.src + (o.area \div 100) * k.area
     + (IF p.int THEN half(100 * o.units * (k.buy + k.buyd * p.dist)) ELSE 0)
\* sizes of what is added up, for the tolerance
Size(p, o, k) ==
  LET cs == Rng(p.cin) \cup Rng(p.cout) IN
  (Sum([c \in cs |-> o.cap[c]], cs) \div 100) * (Abs(k.cap) + Abs(k.dist) * 3) + (o.scap \div 100) * Abs(k.stor)
  + (o.srccap \div 100) * Abs(k.src) + (o.area \div 100) * Abs(k.area) + (IF p.int THEN 100 * o.units * (Abs(k.buy) + Abs(k.buyd) * 3) ELSE 0)
\* what is lost in cutting off quantities
Coarse(k) == 2 + Abs(k.cap) + 3 * Abs(k.dist) + Abs(k.stor) + Abs(k.src) + Abs(k.area)
Near(a, b, size) == Abs(a - b) <= CTol + size \div 200
VarTerms(s, p, o, k, t) ==
  << Total([i \in DOMAIN p.cexp |-> k.exp[t] * o.fexp[p.cexp[i]][t]]),
     Total([i \in DOMAIN p.cout |-> k.out[t] * o.fout[p.cout[i]][t]]),
     IF p.base = "supply" THEN k.use[t] * o.src[t] ELSE Total([i \in DOMAIN p.cin |-> k.in[t] * o.fin[p.cin[i]][t]]) >>
Var(s, p, o, k, t) == s.w[t] * (Total(VarTerms(s, p, o, k, t)) \div 100)
Fixed(s, p, o, k) ==
  LET cs == Rng(p.cin) \cup Rng(p.cout) IN
  Hours(s) * ((Sum([c \in cs |-> o.cap[c]], cs) \div 100) * k.omcap + Pct(Invest(p, o, k), k.omfrac))
\* a size nothing depends on (its only costs are worth nothing) has no value, and no cost follows
Costs(s, p, o) ==
  IF p.area /\ ~o.said THEN {} ELSE
  UNION {LET k == p.cost[c] x == o.cost[c] y == Yearly(k) size == Size(p, o, k)
             vsize == Total([t \in Steps(s) |-> Abs(x.var[t])]) IN
    Bad("CostInvestment", Near(x.inv, Invest(p, o, k), size))
    \cup Bad("CostAnnualised", Abs(x.ann - Part(Hours(s) * Invest(p, o, k), y)) <= CTol + Coarse(k) * Hours(s) + Part(Hours(s) * size, y) \div 200)
    \cup Bad("CostFixed", Abs(x.fix - Fixed(s, p, o, k)) <= CTol + (k.omcap + Coarse(k)) * Hours(s) + (Abs(x.fix) + (Hours(s) * size) \div 4) \div 200)
    \cup Bad("CostVariable", \A t \in Steps(s) : Near(x.var[t], Var(s, p, o, k, t), s.w[t] * ((Abs(VarTerms(s, p, o, k, t)[1]) + Abs(VarTerms(s, p, o, k, t)[2]) + Abs(VarTerms(s, p, o, k, t)[3])) \div 100)))
    \cup Bad("CostTotal", Near(x.total, x.ann + x.fix + Total(x.var), Abs(x.ann) + Abs(x.fix) + vsize))
    : c \in Rng(s.classes)}

Summaries(s, p, o) ==
  Bad("CapacityFactor", \A c \in Rng(p.cout), t \in Steps(s) : o.cap[c] <= 100 \/ Abs(o.fout[c][t] - Part(o.cap[c] * s.res[t], o.cf[c][t])) <= Tol + (o.cap[c] * s.res[t]) \div U)

InstFails(s, p, o) == Flows(s, p, o) \cup Balances(s, p, o) \cup Stores(s, p, o) \cup Capacities(s, p, o) \cup Costs(s, p, o) \cup Summaries(s, p, o)

\* laws over several instances
Of(s, S, f(_)) == Sum([i \in S |-> f(i)], S)
Fine(s, sol) ==
  LET short == Sum([t \in Steps(s) |-> s.w[t] * Sum([n \in Rng(s.nodes) |-> Sum([c \in Rng(s.carriers) |-> sol.unmet[n][c][t] - sol.unused[n][c][t]], Rng(s.carriers))], Rng(s.nodes))], Steps(s))
  IN (short \div 100) * s.bigM
\* the objective with any weights, and how precisely it is known
Value(s, sol, weights) == Sum([c \in Rng(s.classes) |-> weights[c] * Of(s, Insts(s), LAMBDA i : sol.inst[i].cost[c].total)], Rng(s.classes)) + Fine(s, sol)
Blur(s, sol, weights) ==
  LET size == Sum([c \in Rng(s.classes) |-> Abs(weights[c]) * Of(s, Insts(s), LAMBDA i : Abs(sol.inst[i].cost[c].total))], Rng(s.classes))
  IN CTol + (size + Fine(s, sol) + 20 * s.bigM) \div 200
Unsaid(s, sol) == \E i \in Insts(s) : s.inst[i].area /\ ~sol.inst[i].said
SystemFails(s, sol) ==
  LET o == sol.inst
      at(n) == {i \in Insts(s) : s.inst[i].node = n}
      links == {s.inst[i].tech : i \in {j \in Insts(s) : Link(s.inst[j])}}
      with(t) == {i \in Insts(s) : s.inst[i].tech = t}
  IN
  Bad("CarrierBalance", \A n \in Rng(s.nodes), c \in Rng(s.carriers), t \in Steps(s) :
      Eq(Of(s, at(n), LAMBDA i : o[i].fout[c][t] - o[i].fin[c][t] - o[i].fexp[c][t]) + sol.unmet[n][c][t] + sol.unused[n][c][t], 0))
  \cup Bad("Unmet", \A n \in Rng(s.nodes), c \in Rng(s.carriers), t \in Steps(s) :
      Le(0, sol.unmet[n][c][t]) /\ Le(sol.unused[n][c][t], 0) /\ (s.feas \/ (sol.unmet[n][c][t] = 0 /\ sol.unused[n][c][t] = 0)))
  \cup Bad("LinkBalance", \A l \in links, t \in Steps(s) :
      Eq(Of(s, with(l), LAMBDA i : SumOut(s.inst[i], o[i], t)), Of(s, with(l), LAMBDA i : SumIn(s.inst[i], o[i], t))))
  \cup Bad("LinkSymmetry", \A l \in links : \A i, j \in with(l) : Eq(Sum(o[i].cap, DOMAIN o[i].cap), Sum(o[j].cap, DOMAIN o[j].cap)))
  \cup Bad("AvailableArea", \A n \in Rng(s.nodes) : s.avail[n] = NONE \/ Le(Of(s, at(n), LAMBDA i : o[i].area), s.avail[n] * U))
  \cup Bad("Systemwide", \A k \in DOMAIN s.wide : LET x == s.wide[k] S == with(x.tech) IN
      /\ \A c \in Rng(s.carriers) : (\E i \in S : c \in Rng(s.inst[i].cin) \cup Rng(s.inst[i].cout)) =>
           /\ x.max = INF \/ Le(Of(s, S, LAMBDA i : o[i].cap[c]), x.max * U)
           /\ Le(x.min * U, Of(s, S, LAMBDA i : o[i].cap[c]))
      /\ x.umax = INF \/ Of(s, S, LAMBDA i : o[i].units) <= x.umax
      /\ Of(s, S, LAMBDA i : o[i].units) >= x.umin)
  \cup Bad("Objective", Unsaid(s, sol) \/ Abs(sol.obj - Value(s, sol, sol.weights)) <= Blur(s, sol, sol.weights))
  \cup Bad("TotalGeneration", \A i \in Insts(s) : LET t == s.inst[i].tech IN
        s.inst[i].base = "demand" \/ (\E j \in with(t) : Len(s.inst[j].cexp) > 0) \/ \A c \in Rng(s.inst[i].cout) :
          LET g == Of(s, with(t), LAMBDA j : Sum([k \in Steps(s) |-> s.w[k] * o[j].fout[c][k]], Steps(s))) IN Abs(g - sol.gen[t][c]) <= Tol * Hours(s))
\* of two solutions of the same system, each is the better one by its own weights
Worse(s, sols) == Bad("Optimal", \A j, k \in DOMAIN sols : Unsaid(s, sols[j]) \/ Unsaid(s, sols[k]) \/
   Value(s, sols[k], sols[k].weights) <= Value(s, sols[j], sols[k].weights) + Blur(s, sols[j], sols[k].weights) + Blur(s, sols[k], sols[k].weights))
Fails(s, sol) == UNION {InstFails(s, s.inst[i], sol.inst[i]) : i \in Insts(s)} \cup SystemFails(s, sol)
=============================================================================
