-------------------------------- MODULE Sem --------------------------------
(* Denotational semantics of Calliope math: what where strings select and what
   expression strings denote, member by member, and the optimisation problem
   that a list of math components poses for given input data.

   A model record m has
     dims    : dimension -> sequence of its items (in order)
     exists  : sequence of <<node, tech, carrier>> (the definition matrix)
     inputs  : name -> [kind, dims, vals, default]; vals maps keys (Key below)
               to values; a missing key is an undefined entry
     config  : build options
     comps   : sequence of components
   Values: <<"n",num,den>>, <<"s",str>>, <<"b",bool>>, <<"inf",sign>>, <<"nan">>.
   Expression values: <<"nan", f>> or <<"lin", c, t, f>> with a rational constant c and
   t : variable id -> rational. The flag f (murky) says that arithmetic with an
   undefined operand took part: Calliope may then refuse the component (at the
   latest when the problem is handed over) instead of skipping the entry.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in 1..Len(s)}
Has(r, f) == f \in DOMAIN r
Get(r, f, x) == IF f \in DOMAIN r THEN r[f] ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

(***** rationals <<num, den>>, den > 0; <<1, 0>> stands for a number too large to compute with
   (TLC integers have 32 bits): such coefficients are left unjudged *****)
Huge == <<1, 0>>
Fits(a) == a[2] > 0 /\ Abs(a[1]) <= 30000 /\ a[2] <= 30000
Rat(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                 g == Gcd(Abs(n), Abs(d))
                 h == IF g = 0 THEN 1 ELSE g
             IN <<(s * n) \div h, (s * d) \div h>>
RZero == <<0, 1>>
ROne == <<1, 1>>
RAdd(a, b) == IF ~Fits(a) \/ ~Fits(b) THEN Huge ELSE IF a[2] = b[2] THEN Rat(a[1] + b[1], a[2]) ELSE Rat(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a) == <<-a[1], a[2]>>
RMul(a, b) == IF ~Fits(a) \/ ~Fits(b) THEN Huge ELSE Rat(a[1] * b[1], a[2] * b[2])
RDiv(a, b) == IF ~Fits(a) \/ ~Fits(b) THEN Huge ELSE Rat(a[1] * b[2], a[2] * b[1])
RLt(a, b) == IF ~Fits(a) \/ ~Fits(b) THEN FALSE ELSE a[1] * b[2] < b[1] * a[2]
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN ROne ELSE IF k > 0 THEN RMul(a, RPow(a, k - 1)) ELSE RDiv(ROne, RPow(a, -k))

(***** linear values *****)
NaN == <<"nan", FALSE>>
Const(r) == <<"lin", r, <<>>, FALSE>>      \* <<>> is also the empty function
Flag(v) == IF v[1] = "nan" THEN v[2] ELSE v[4]
Mark(v, f) == IF v[1] = "nan" THEN <<"nan", v[2] \/ f>> ELSE <<"lin", v[2], v[3], v[4] \/ f>>
Fl(a, b) == Flag(a) \/ Flag(b)
Murk == <<"nan", TRUE>>
IsNaN(v) == v[1] = "nan"
IsConst(v) == v[1] = "lin" /\ \A k \in DOMAIN v[3] : v[3][k][1] = 0
Var(id) == <<"lin", RZero, [x \in {id} |-> ROne], FALSE>>
TermAdd(s, t) == [x \in (DOMAIN s) \cup (DOMAIN t) |->
                    IF x \notin DOMAIN s THEN t[x] ELSE IF x \notin DOMAIN t THEN s[x] ELSE RAdd(s[x], t[x])]
LAdd(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Murk ELSE <<"lin", RAdd(a[2], b[2]), TermAdd(a[3], b[3]), Fl(a, b)>>
LScale(a, r) == IF IsNaN(a) THEN a ELSE <<"lin", RMul(a[2], r), [x \in DOMAIN a[3] |-> RMul(a[3][x], r)], a[4]>>
LNeg(a) == LScale(a, <<-1, 1>>)
LMul(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Murk
              ELSE Mark(IF IsConst(a) THEN LScale(b, a[2]) ELSE LScale(a, b[2]), Fl(a, b))
LDiv(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Murk ELSE Mark(LScale(a, RDiv(ROne, b[2])), Fl(a, b))
LPow(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN Murk
              ELSE Mark(IF IsConst(a) THEN Const(RPow(a[2], b[2][1])) ELSE a, Fl(a, b))   \* only exponent 1 on variables
\* sum skipping undefined entries, undefined only if all are
RECURSIVE SkipSum(_)
SkipSum(vs) == IF vs = <<>> THEN NaN
               ELSE LET r == SkipSum(Tail(vs)) h == Head(vs)
                    IN IF IsNaN(h) THEN Mark(r, Flag(h)) ELSE IF IsNaN(r) THEN Mark(h, Flag(r)) ELSE LAdd(h, r)

(***** indices: functions from dimensions to items *****)
RECURSIVE KeyOf(_, _)
KeyOf(ds, idx) == IF ds = <<>> THEN "" ELSE IF Len(ds) = 1 THEN idx[ds[1]] ELSE idx[ds[1]] \o "|" \o KeyOf(Tail(ds), idx)
NoIdx == [d \in {} |-> ""]
Set1(idx, d, x) == [k \in (DOMAIN idx) \cup {d} |-> IF k = d THEN x ELSE idx[k]]
Drop(idx, S) == [k \in (DOMAIN idx) \ S |-> idx[k]]
Pos(s, x) == IF \E i \in 1..Len(s) : s[i] = x THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0
\* all indices over the sequence of dims ds extending idx (as a sequence, in order)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Extend(_, _, _)
Extend(m, ds, idx) ==
  IF ds = <<>> THEN <<idx>>
  ELSE IF ~Has(m.dims, ds[1]) THEN <<>>
  ELSE LET its == m.dims[ds[1]] IN Flat([k \in 1..Len(its) |-> Extend(m, Tail(ds), Set1(idx, ds[1], its[k]))])
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

(***** inputs *****)
In(m, n) == m.inputs[n]
Defined(m, n, idx) == KeyOf(In(m, n).dims, idx) \in DOMAIN In(m, n).vals
Raw(m, n, idx) == IF Defined(m, n, idx) THEN In(m, n).vals[KeyOf(In(m, n).dims, idx)] ELSE NaN
Filled(m, n, idx) == IF Defined(m, n, idx) THEN Raw(m, n, idx) ELSE In(m, n).default
NumOf(v) == CASE v[1] = "n" -> Const(<<v[2], v[3]>>) [] v[1] = "b" -> Const(IF v[2] THEN ROne ELSE RZero) [] OTHER -> NaN

(***** environment of components built so far: name -> [dims, default, at] *****)
\* at : key -> linear value (members only)
\* Sub-expression and slice choices: ch.sub, ch.sl : name -> expression
RECURSIVE EDims(_, _, _, _)
\* dimensions of an expression
RefDims(m, env, n) == IF Has(env, n) THEN Rng(env[n].dims) ELSE IF Has(m.inputs, n) THEN Rng(In(m, n).dims) ELSE {}
EDims(m, env, ch, e) ==
  CASE e[1] = "num" -> {}
    [] e[1] = "ref" -> RefDims(m, env, e[2])
    [] e[1] = "sl" -> LET fixed == {d \in DOMAIN e[3] : TRUE}
                          S(d) == LET s == IF e[3][d][1] = "$" THEN ch.sl[e[3][d][2]] ELSE e[3][d]
                                  IN IF s[1] = "ref" THEN RefDims(m, env, s[2]) ELSE IF s[1] = "list" THEN {d} ELSE {}
                      IN (RefDims(m, env, e[2]) \ fixed) \cup UNION {S(d) : d \in fixed}
    [] e[1] = "sub" -> EDims(m, env, ch, ch.sub[e[2]])
    [] e[1] \in {"neg", "pos"} -> EDims(m, env, ch, e[2])
    [] e[1] \in {"+", "-", "*", "/", "**"} -> EDims(m, env, ch, e[2]) \cup EDims(m, env, ch, e[3])
    [] e[1] = "sum" -> EDims(m, env, ch, e[2]) \ Rng(e[3])
    [] e[1] = "roll" -> EDims(m, env, ch, e[2])
    [] e[1] = "where" -> EDims(m, env, ch, e[2]) \cup RefDims(m, env, e[3])
    [] e[1] = "gsum" -> (EDims(m, env, ch, e[2]) \ RefDims(m, env, e[3])) \cup {e[4]}
    [] e[1] = "gdt" -> (EDims(m, env, ch, e[2]) \ {e[3]}) \cup {e[4]}
    [] e[1] = "nextn" -> EDims(m, env, ch, e[2])
    [] e[1] = "lookup" -> EDims(m, env, ch, e[2])
    [] e[1] = "redc" -> (EDims(m, env, ch, e[2]) \cup {"nodes", "techs"}) \ {"carriers"}
    [] OTHER -> {}

EnvAt(env, n, idx) == LET c == env[n] k == KeyOf(c.dims, idx)
                      IN IF k \in DOMAIN c.at THEN c.at[k] ELSE c.default
Ref(m, env, n, idx) == IF Has(env, n) THEN EnvAt(env, n, idx) ELSE IF Has(m.inputs, n) THEN NumOf(Filled(m, n, idx)) ELSE NaN

\* the period a timestep belongs to is part of the record (calendar arithmetic is not specified here)
Period(m, t, p) == m.periods[p][t]

RECURSIVE Ev(_, _, _, _, _)
Ev(m, env, ch, e, idx) ==
  CASE e[1] = "num" -> Const(<<e[2], e[3]>>)
    [] e[1] = "ref" -> Ref(m, env, e[2], idx)
    [] e[1] = "sl" ->
         LET ds == DOMAIN e[3]
             S(d) == IF e[3][d][1] = "$" THEN ch.sl[e[3][d][2]] ELSE e[3][d]
             Item(d) == LET s == S(d) IN
                CASE s[1] = "item" -> s[2]
                  [] s[1] = "at" -> LET its == m.dims[s[2]] IN its[IF s[3] < 0 THEN Len(its) + 1 + s[3] ELSE s[3] + 1]
                  [] s[1] = "ref" -> LET v == Filled(m, s[2], idx) IN IF v[1] = "s" THEN v[2] ELSE "?"
                  [] s[1] = "list" -> IF idx[d] \in Rng(s[2]) THEN idx[d] ELSE "?"
             j == [k \in (DOMAIN idx) \cup ds |-> IF k \in ds THEN Item(k) ELSE idx[k]]
         IN IF \E d \in ds : j[d] = "?" THEN NaN ELSE Ref(m, env, e[2], j)
    [] e[1] = "sub" -> Ev(m, env, ch, ch.sub[e[2]], idx)
    [] e[1] = "pos" -> Ev(m, env, ch, e[2], idx)
    [] e[1] = "neg" -> LNeg(Ev(m, env, ch, e[2], idx))
    [] e[1] = "+" -> LAdd(Ev(m, env, ch, e[2], idx), Ev(m, env, ch, e[3], idx))
    [] e[1] = "-" -> LAdd(Ev(m, env, ch, e[2], idx), LNeg(Ev(m, env, ch, e[3], idx)))
    [] e[1] = "*" -> LMul(Ev(m, env, ch, e[2], idx), Ev(m, env, ch, e[3], idx))
    [] e[1] = "/" -> LDiv(Ev(m, env, ch, e[2], idx), Ev(m, env, ch, e[3], idx))
    [] e[1] = "**" -> LPow(Ev(m, env, ch, e[2], idx), Ev(m, env, ch, e[3], idx))
    [] e[1] = "sum" ->
         LET over == SetToSeq(Rng(e[3]) \cap EDims(m, env, ch, e[2]))
             ext == Extend(m, over, Drop(idx, Rng(over)))
         IN SkipSum([k \in 1..Len(ext) |-> Ev(m, env, ch, e[2], ext[k])])
    [] e[1] = "roll" ->
         LET its == m.dims[e[3]] n == Len(its) p == Pos(its, idx[e[3]])
             q == ((p - 1 - e[4]) % n) + 1
         IN Ev(m, env, ch, e[2], Set1(idx, e[3], its[q]))
    [] e[1] = "where" ->
         LET c == Filled(m, e[3], idx)
             yes == CASE c[1] = "b" -> c[2] [] c[1] = "n" -> c[2] # 0 [] OTHER -> FALSE
         IN IF yes THEN Ev(m, env, ch, e[2], idx) ELSE NaN
    [] e[1] = "gsum" ->
         LET gd == In(m, e[3]).dims
             ext == Extend(m, gd, Drop(idx, Rng(gd)))
             InGroup(j) == Filled(m, e[3], j) = <<"s", idx[e[4]]>>
         IN SkipSum([k \in 1..Len(ext) |-> IF InGroup(ext[k]) THEN Ev(m, env, ch, e[2], ext[k]) ELSE NaN])
    [] e[1] = "gdt" ->
         LET its == m.dims[e[3]]
         IN SkipSum([k \in 1..Len(its) |-> IF Period(m, its[k], e[4]) = idx[e[4]]
                                           THEN Ev(m, env, ch, e[2], Set1(idx, e[3], its[k])) ELSE NaN])
    [] e[1] = "nextn" ->
         LET its == m.dims[e[3]] p == Pos(its, idx[e[3]])
             hi == IF p + e[4] - 1 > Len(its) THEN Len(its) ELSE p + e[4] - 1
         IN SkipSum([k \in 1..(hi - p + 1) |-> Ev(m, env, ch, e[2], Set1(idx, e[3], its[p + k - 1]))])
    [] e[1] = "lookup" ->
         LET ds == DOMAIN e[3]
             v(d) == Filled(m, e[3][d], idx)
             bad == \E d \in ds : v(d)[1] # "s" \/ v(d)[2] \notin Rng(m.dims[d])
         IN IF bad THEN NaN ELSE Ev(m, env, ch, e[2], [k \in (DOMAIN idx) \cup ds |-> IF k \in ds THEN v(k)[2] ELSE idx[k]])
    [] e[1] = "redc" ->
         LET its == m.dims["carriers"]
             J(k) == Set1(idx, "carriers", its[k])
         IN SkipSum([k \in 1..Len(its) |-> IF Raw(m, "carrier_" \o e[3], J(k)) = <<"b", TRUE>> THEN Ev(m, env, ch, e[2], J(k)) ELSE NaN])

(***** where strings *****)
\* dimensions that a where string adds
RECURSIVE WDims(_, _, _)
WEDims(m, e) == EDims(m, [x \in {} |-> 0], [sub |-> <<>>, sl |-> <<>>], e)
WDims(m, env, w) ==
  CASE w[1] = "bool" -> {}
    [] w[1] = "has" -> RefDims(m, env, w[2])
    [] w[1] = "cmp" -> WEDims(m, w[3]) \cup (IF w[3][1] = "dim" THEN {w[3][2]} ELSE {})
    [] w[1] = "in" -> {w[3]}
    [] w[1] = "any" -> RefDims(m, env, w[2]) \ Rng(w[3])
    [] w[1] = "defd" -> {w[2]}
    [] w[1] = "not" -> WDims(m, env, w[2])
    [] w[1] \in {"and", "or"} -> WDims(m, env, w[2]) \cup WDims(m, env, w[3])

\* existence: of data for inputs (a boolean lookup: its value), of members for built components
HasIt(m, env, n, idx) ==
  IF Has(env, n) THEN ~IsNaN(LET c == env[n] k == KeyOf(c.dims, idx) IN IF k \in DOMAIN c.at THEN c.at[k] ELSE NaN)
  ELSE IF ~Has(m.inputs, n) THEN FALSE
  ELSE IF In(m, n).bool THEN Filled(m, n, idx) = <<"b", TRUE>>
  ELSE Raw(m, n, idx)[1] \notin {"nan", "inf"}

\* comparison of values; undefined values satisfy none
\* arithmetic with infinite values (they may only appear in conditions and bounds)
ToNum(v) == IF v[1] = "b" THEN <<"n", IF v[2] THEN 1 ELSE 0, 1>> ELSE IF v[1] \in {"n", "inf"} THEN v ELSE NaN
XSign(v) == IF v[1] = "inf" THEN v[2] ELSE IF v[2] > 0 THEN 1 ELSE IF v[2] < 0 THEN -1 ELSE 0
XNeg(v) == IF v[1] = "n" THEN <<"n", -v[2], v[3]>> ELSE IF v[1] = "inf" THEN <<"inf", -v[2]>> ELSE NaN
XAdd(a, b) == CASE a[1] = "nan" \/ b[1] = "nan" -> NaN
                [] a[1] = "inf" /\ b[1] = "inf" -> IF a[2] = b[2] THEN a ELSE NaN
                [] a[1] = "inf" -> a [] b[1] = "inf" -> b
                [] OTHER -> LET r == RAdd(<<a[2], a[3]>>, <<b[2], b[3]>>) IN <<"n", r[1], r[2]>>
XMul(a, b) == CASE a[1] = "nan" \/ b[1] = "nan" -> NaN
                [] a[1] = "inf" \/ b[1] = "inf" -> IF XSign(a) * XSign(b) = 0 THEN NaN ELSE <<"inf", XSign(a) * XSign(b)>>
                [] OTHER -> LET r == RMul(<<a[2], a[3]>>, <<b[2], b[3]>>) IN <<"n", r[1], r[2]>>
RECURSIVE WVal(_, _, _)
WVal(m, e, idx) ==
  CASE e[1] = "num" -> <<"n", e[2], e[3]>>
    [] e[1] = "ref" -> Filled(m, e[2], idx)
    [] e[1] = "cfg" -> m.config[e[2]]
    [] e[1] = "dim" -> <<"s", idx[e[2]]>>
    [] e[1] \in {"+", "-", "*"} ->
         LET a == ToNum(WVal(m, e[2], idx)) b == ToNum(WVal(m, e[3], idx)) IN
         CASE e[1] = "+" -> XAdd(a, b) [] e[1] = "-" -> XAdd(a, XNeg(b)) [] e[1] = "*" -> XMul(a, b)
    [] e[1] = "neg" -> XNeg(ToNum(WVal(m, e[2], idx)))
    [] e[1] = "pos" -> ToNum(WVal(m, e[2], idx))
    [] OTHER -> NaN
Rhs(m, r) ==
  CASE r[1] = "num" -> <<"n", r[2], r[3]>>
    [] r[1] = "str" -> <<"s", r[2]>>
    [] r[1] = "bool" -> <<"b", r[2]>>
    [] r[1] = "inf" -> <<"inf", 1>>
    [] r[1] = "at" -> LET its == m.dims[r[2]] IN <<"s", its[IF r[3] < 0 THEN Len(its) + 1 + r[3] ELSE r[3] + 1]>>
Num(v) == IF v[1] = "b" THEN ToNum(v) ELSE v
CmpNum(op, a, b) == CASE op = "<" -> RLt(a, b) [] op = "<=" -> ~RLt(b, a) [] op = ">" -> RLt(b, a) [] op = ">=" -> ~RLt(a, b) [] op = "==" -> ~RLt(a, b) /\ ~RLt(b, a)
CmpInt(op, a, b) == CASE op = "<" -> a < b [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b [] op = "==" -> a = b
Compare(m, op, e, l, r) ==
  LET a == Num(l) b == Num(r) IN
  CASE a[1] = "nan" \/ b[1] = "nan" -> FALSE
    [] a[1] = "n" /\ b[1] = "n" -> CmpNum(op, <<a[2], a[3]>>, <<b[2], b[3]>>)
    [] a[1] = "inf" /\ b[1] = "inf" -> CmpInt(op, a[2], b[2])
    [] a[1] = "inf" /\ b[1] = "n" -> CmpInt(op, a[2], 0)
    [] a[1] = "n" /\ b[1] = "inf" -> CmpInt(op, 0, b[2])
    [] a[1] = "s" /\ b[1] = "s" ->
         IF op = "==" THEN a[2] = b[2]
         ELSE LET its == m.dims[e[2]] IN CmpInt(op, Pos(its, a[2]), Pos(its, b[2]))   \* ordered dimensions
    [] OTHER -> FALSE

RECURSIVE Wh(_, _, _, _)
Wh(m, env, w, idx) ==
  CASE w[1] = "bool" -> w[2]
    [] w[1] = "has" -> HasIt(m, env, w[2], idx)
    [] w[1] = "cmp" -> Compare(m, w[2], w[3], WVal(m, w[3], idx), Rhs(m, w[4]))
    [] w[1] = "in" -> idx[w[3]] \in Rng(w[2])
    [] w[1] = "any" -> \E j \in Rng(Extend(m, SetToSeq(Rng(w[3]) \cap RefDims(m, env, w[2])), idx)) : HasIt(m, env, w[2], j)
    [] w[1] = "defd" ->  \* <<"defd", within, how, dim, items>>
         LET D(x) == \E q \in Rng(m.exists) : LET f == [nodes |-> q[1], techs |-> q[2], carriers |-> q[3]] IN f[w[2]] = idx[w[2]] /\ f[w[4]] = x
         IN IF w[3] = "any" THEN \E x \in Rng(w[5]) : D(x) ELSE \A x \in Rng(w[5]) : D(x)
    [] w[1] = "not" -> ~Wh(m, env, w[2], idx)
    [] w[1] = "and" -> Wh(m, env, w[2], idx) /\ Wh(m, env, w[3], idx)
    [] w[1] = "or" -> Wh(m, env, w[2], idx) \/ Wh(m, env, w[3], idx)

Core == {"nodes", "techs", "carriers"}
Ex(m, idx) == \E q \in Rng(m.exists) : LET f == [nodes |-> q[1], techs |-> q[2], carriers |-> q[3]] IN \A d \in Core \cap DOMAIN idx : f[d] = idx[d]
\* a where string may span dimensions outside foreach: some item of those has to satisfy it
Some(m, env, w, idx, base) ==
  LET extra == SetToSeq(((WDims(m, env, w) \cup base) \ DOMAIN idx))
  IN \E j \in Rng(Extend(m, extra, idx)) : (base = {} \/ <<j["nodes"], j["techs"], j["carriers"]>> \in Rng(m.exists)) /\ Wh(m, env, w, j)
Top(m, env, c, idx) == Some(m, env, c.where, idx, Core)

(***** members and values of a component *****)
\* slicing a dimension that the sliced component is not indexed over is an error
RECURSIVE SliceErr(_, _, _, _)
SliceErr(m, env, ch, e) ==
  CASE e[1] = "sl" -> ~(DOMAIN e[3] \subseteq RefDims(m, env, e[2]))
    [] e[1] = "sub" -> SliceErr(m, env, ch, ch.sub[e[2]])
    [] e[1] \in {"neg", "pos", "sum", "roll", "where", "gsum", "gdt", "nextn", "lookup", "redc"} -> SliceErr(m, env, ch, e[2])
    [] e[1] \in {"+", "-", "*", "/", "**"} -> SliceErr(m, env, ch, e[2]) \/ SliceErr(m, env, ch, e[3])
    [] OTHER -> FALSE
RECURSIVE SubsIn(_), SlicesIn(_)
SubsIn(e) == CASE e[1] = "sub" -> {e[2]}
               [] e[1] \in {"neg", "pos", "sum", "roll", "where", "gsum", "gdt", "nextn", "lookup", "redc"} -> SubsIn(e[2])
               [] e[1] \in {"+", "-", "*", "/", "**", "<=", ">=", "=="} -> SubsIn(e[2]) \cup SubsIn(e[3])
               [] OTHER -> {}
SlicesIn(e) == CASE e[1] = "sl" -> {e[3][d][2] : d \in {x \in DOMAIN e[3] : e[3][x][1] = "$"}}
               [] e[1] \in {"neg", "pos", "sum", "roll", "where", "gsum", "gdt", "nextn", "lookup", "redc"} -> SlicesIn(e[2])
               [] e[1] \in {"+", "-", "*", "/", "**", "<=", ">=", "=="} -> SlicesIn(e[2]) \cup SlicesIn(e[3])
               [] OTHER -> {}
\* alternatives: every combination of an equation, its sub-expressions and its slices, with all their where strings
Choices(c) ==
  UNION { LET eq == c.equations[k] ss == SubsIn(eq.expression) IN
          UNION { LET sls == SlicesIn(eq.expression) \cup UNION {SlicesIn(c.sub_expressions[s][sc[s]].expression) : s \in ss} IN
                  { [eq |-> k, sub |-> sc, sl |-> lc] : lc \in {f \in [sls -> 1..9] : \A s \in sls : f[s] <= Len(c.slices[s])} }
                : sc \in {f \in [ss -> 1..9] : \A s \in ss : f[s] <= Len(c.sub_expressions[s])} }
        : k \in 1..Len(c.equations) }
Bind(c, x) == [sub |-> [s \in DOMAIN x.sub |-> c.sub_expressions[s][x.sub[s]].expression],
               sl |-> [s \in DOMAIN x.sl |-> c.slices[s][x.sl[s]].expression]]
RECURSIVE AndAll(_)
AndAll(ws) == IF Len(ws) = 1 THEN ws[1] ELSE <<"and", ws[1], AndAll(Tail(ws))>>
WhereOf(c, x) == AndAll(<<c.equations[x.eq].where>>
                        \o (LET ns == SetToSeq(DOMAIN x.sub) IN [i \in 1..Len(ns) |-> c.sub_expressions[ns[i]][x.sub[ns[i]]].where])
                        \o (LET ns == SetToSeq(DOMAIN x.sl) IN [i \in 1..Len(ns) |-> c.slices[ns[i]][x.sl[ns[i]]].where]))
Applies(m, env, c, x, idx) == Some(m, env, WhereOf(c, x), idx, {})

Foreach(m, c) == IF \E d \in Rng(c.foreach) : ~Has(m.dims, d) THEN <<>> ELSE Extend(m, c.foreach, NoIdx)
TopMembers(m, env, c) == {idx \in Rng(Foreach(m, c)) : Top(m, env, c, idx)}

\* variables
Bound(m, b, idx) == IF b[1] = "ref" THEN Filled(m, b[2], idx) ELSE b      \* <<"n",..>>, <<"inf",s>>, <<"nan">>
VarId(c, idx) == <<c.name>> \o [i \in 1..Len(c.foreach) |-> idx[c.foreach[i]]]
VarEntry(m, env, c) ==
  LET M == TLCEval(TopMembers(m, env, c))
  IN [dims |-> IF M = {} THEN <<>> ELSE c.foreach, default |-> NumOf(c.default),
      at |-> TLCEval([k \in {KeyOf(c.foreach, i) : i \in M} |-> LET i == CHOOSE j \in M : KeyOf(c.foreach, j) = k IN Var(VarId(c, i))])]
\* expressions: value per member; problems: overlapping alternatives, undefined or surplus dimensions
Sides(e) == IF e[1] \in {"<=", ">=", "=="} THEN <<e[2], e[3]>> ELSE <<e>>
Picks(m, env, c, X, idx) == {x \in X : Applies(m, env, c, x, idx)}
Evals(m, env, c) ==
  LET X == TLCEval(Choices(c))
      M == TLCEval(TopMembers(m, env, c))
      P == TLCEval([i \in M |-> Picks(m, env, c, X, i)])
      G == {i \in M : P[i] # {}}
      One(i) == LET x == CHOOSE y \in P[i] : TRUE
                    e == c.equations[x.eq].expression
                    sd == Sides(e)
                    bd == Bind(c, x)
                    bad == TLCEval(\E k \in 1..Len(sd) : SliceErr(m, env, bd, sd[k]) \/ ~(EDims(m, env, bd, sd[k]) \subseteq Rng(c.foreach)))
                IN [idx |-> i, op |-> IF Len(sd) = 2 THEN e[1] ELSE "-",
                    surplus |-> bad,
                    v |-> TLCEval(IF bad THEN <<NaN>>
                          ELSE [k \in 1..Len(sd) |-> Ev(m, env, Bind(c, x), sd[k], i)])]
  IN [overlap |-> \E i \in G : Cardinality(P[i]) > 1,
      mem |-> TLCEval({One(i) : i \in G})]
ExprEntry(m, env, c, ev) ==
  [dims |-> IF ev.mem = {} THEN <<>> ELSE c.foreach, default |-> NumOf(c.default),
   at |-> TLCEval([k \in {KeyOf(c.foreach, x.idx) : x \in ev.mem} |-> LET v == (CHOOSE x \in ev.mem : KeyOf(c.foreach, x.idx) = k).v[1]
                                                                IN <<v[1], v[2], v[3], FALSE>>])]
\* a component that may be refused because undefined entries took part in its arithmetic
Murky(ev) == \E x \in ev.mem : \E k \in 1..Len(x.v) : Flag(x.v[k])
Bad(ev) == ev.overlap \/ \E x \in ev.mem : x.surplus \/ \E k \in 1..Len(x.v) : IsNaN(x.v[k])

(***** the problem posed by a sequence of components *****)
Row(c, x) == LET d == LAdd(x.v[1], LNeg(x.v[2]))
                 s == IF x.op = ">=" THEN LNeg(d) ELSE d
             IN [id |-> VarId(c, x.idx), sense |-> IF x.op = "==" THEN "=" ELSE "<=", rhs |-> RNeg(s[2]),
                 terms |-> [t \in {u \in DOMAIN s[3] : s[3][u][1] # 0} |-> s[3][t]]]
VarRow(m, c, idx) == [id |-> VarId(c, idx), lb |-> Bound(m, c.lb, idx), ub |-> Bound(m, c.ub, idx), dom |-> c.domain]
NoProblem(dropped) == [dropped |-> dropped, env |-> [x \in {} |-> 0], rows |-> {}, vars |-> {}, obj |-> Const(RZero), sense |-> "-", refused |-> {}, members |-> [x \in {} |-> 0]]
With(f, n, v) == [x \in (DOMAIN f) \cup {n} |-> IF x = n THEN v ELSE f[x]]
Step(m, pr, c, objective) ==
  IF c.kind = "variables" THEN
    LET en == TLCEval(VarEntry(m, pr.env, c)) M == TLCEval(TopMembers(m, pr.env, c)) IN
    [pr EXCEPT !.env = With(pr.env, c.name, en), !.vars = TLCEval(pr.vars \cup {VarRow(m, c, i) : i \in M}),
               !.members = With(pr.members, c.name, {VarId(c, i) : i \in M})]
  ELSE LET ev == TLCEval(Evals(m, pr.env, c)) IN
    IF Bad(ev) \/ (c.uid \in pr.dropped /\ Murky(ev)) THEN [pr EXCEPT !.refused = pr.refused \cup {c.uid}]
    ELSE LET mem == {VarId(c, x.idx) : x \in ev.mem} IN
    CASE c.kind = "global_expressions" -> [pr EXCEPT !.env = TLCEval(With(pr.env, c.name, ExprEntry(m, pr.env, c, ev))), !.members = With(pr.members, c.name, mem)]
      [] c.kind = "constraints" -> [pr EXCEPT !.rows = TLCEval(pr.rows \cup {Row(c, x) : x \in ev.mem}), !.members = With(pr.members, c.name, mem)]
      [] c.kind = "objectives" ->
           IF c.name # objective \/ ev.mem = {} THEN [pr EXCEPT !.members = With(pr.members, c.name, mem)]
           ELSE [pr EXCEPT !.obj = (CHOOSE x \in ev.mem : TRUE).v[1], !.sense = c.sense, !.members = With(pr.members, c.name, mem)]
RECURSIVE Run(_, _, _, _, _)
Run(m, cs, k, pr, objective) == IF k > Len(cs) THEN pr ELSE Run(m, cs, k + 1, Step(m, pr, cs[k], objective), objective)
\* input data is kept only where the technical structure (nodes, techs, carriers) exists
Clean(m) ==
  [m EXCEPT !.inputs = [n \in DOMAIN m.inputs |->
     LET p == m.inputs[n]
         ok == IF Core \cap Rng(p.dims) = {} THEN DOMAIN p.vals
               ELSE {k \in {KeyOf(p.dims, i) : i \in {j \in Rng(Extend(m, p.dims, NoIdx)) : Ex(m, j)}} : k \in DOMAIN p.vals}
     IN [p EXCEPT !.vals = [k \in ok |-> p.vals[k]], !.dims = IF ok = {} THEN <<>> ELSE p.dims]]]
\* dropped: uids of the components that were refused when the math was built
ProblemOf(m, dropped) == LET c == TLCEval(Clean(m)) IN Run(c, c.comps, 1, NoProblem(dropped), c.objective)

(***** comparison with a linear program read back from the solver file (numbers x 1000) *****)
Near(q, got) == ~Fits(q) \/ (Abs(got) <= 2000000000 \div q[2] /\ Abs(q[1] * 1000 - got * q[2]) <= q[2])
Big == 2000000000
NearB(b, got, side) == CASE b[1] = "n" -> Near(<<b[2], b[3]>>, got)
                         [] b[1] = "inf" -> got = b[2] * Big
                         [] OTHER -> got = (IF side = "lb" THEN -Big ELSE Big)
\* bounds of an integer variable may be given as the enclosed integers
Ceil(q) == -((-q[1]) \div q[2])
Floor(q) == q[1] \div q[2]
BoundOk(w, b, got, side) ==
  NearB(b, got, side) \/ (w.dom = "int" /\ b[1] = "n" /\ Near(<<IF side = "lb" THEN Ceil(<<b[2], b[3]>>) ELSE Floor(<<b[2], b[3]>>), 1>>, got))
TermsOk(want, got) ==
  LET G == {<<got[i][1], got[i][2]>> : i \in 1..Len(got)} NZ == {u \in DOMAIN want : want[u][1] # 0}
  IN {g[1] : g \in G} = NZ /\ \A g \in G : Near(want[g[1]], g[2])
RowOk(w, g) == w.sense = g.sense /\ Near(w.rhs, g.rhs) /\ TermsOk(w.terms, g.terms)
\* an equality may be written with either sign
Flip(w) == [w EXCEPT !.rhs = RNeg(@), !.terms = [t \in DOMAIN @ |-> RNeg(@[t])]]
RowMatch(w, g) == RowOk(w, g) \/ (w.sense = "=" /\ RowOk(Flip(w), g))
\* rows without variables are not part of a linear program
Real(rows) == {w \in rows : DOMAIN w.terms # {}}
LPFails(m, pr, lp) ==
  LET G == {lp.rows[i] : i \in 1..Len(lp.rows)}
      Wn == Real(pr.rows)
      gids == {g.id : g \in {h \in G : Len(h.terms) > 0}}
      wids == {w.id : w \in Wn}
      used == UNION {DOMAIN w.terms : w \in Wn} \cup {u \in DOMAIN pr.obj[3] : pr.obj[3][u][1] # 0}
      gv == {lp.vars[i] : i \in 1..Len(lp.vars)}
  IN (IF gids \subseteq wids THEN {} ELSE {"NoExtraRows"}) \cup
     (IF wids \subseteq gids THEN {} ELSE {"NoMissingRows"}) \cup
     (IF \A g \in G : \A w \in Wn : w.id = g.id => RowMatch(w, g) THEN {} ELSE {"RowsAsDenoted"}) \cup
     (IF pr.sense = "-" \/ lp.sense = pr.sense THEN {} ELSE {"ObjectiveSense"}) \cup
     (IF pr.sense = "-" \/ (TermsOk(pr.obj[3], lp.obj) /\ Near(pr.obj[2], lp.const)) THEN {} ELSE {"ObjectiveAsDenoted"}) \cup
     (IF \A v \in gv : v[1] \in {w.id : w \in pr.vars} THEN {} ELSE {"NoExtraVariables"}) \cup
     (IF used \subseteq {v[1] : v \in gv} THEN {} ELSE {"NoMissingVariables"}) \cup
     (IF \A v \in gv : \A w \in pr.vars : w.id = v[1] => BoundOk(w, w.lb, v[2], "lb") /\ BoundOk(w, w.ub, v[3], "ub") /\ w.dom = v[4] THEN {} ELSE {"VariableBounds"})
=============================================================================
