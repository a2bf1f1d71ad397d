"""Random worlds (dimensions, data) and random math (as syntax trees) for the semantics in spec/Sem.tla.

A syntax tree is nested lists exactly as Sem.tla reads them; `expr_text` / `where_text` render it to the strings
Calliope parses, with minimal or redundant parentheses and random spacing."""

from __future__ import annotations

import copy
import json
import math
import re
from fractions import Fraction

from harness import common, lp, tiny

NAN = ["nan"]
NUMS = [[-2, 1], [-1, 1], [1, 2], [1, 1], [2, 1], [3, 1], [5, 2]]


def num(x):
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return NAN
    if isinstance(x, float) and math.isinf(x):
        return ["inf", 1 if x > 0 else -1]
    if isinstance(x, bool):
        return ["b", x]
    if isinstance(x, str):
        return ["s", x]
    f = Fraction(x)
    return ["n", f.numerator, f.denominator]


def unnum(v):
    if v[0] == "n":
        return v[1] / v[2] if v[2] != 1 else v[1]
    if v[0] == "inf":
        return v[1] * float("inf")
    if v[0] == "nan":
        return None
    return v[1]


# --------------------------------------------------------------------------
# worlds
# --------------------------------------------------------------------------
class World:
    """Dimensions, technical structure and input data."""

    def __init__(self, rng, focus="expr"):
        self.rng = rng
        self.focus = focus
        nodes = ["a", "b", "w"][: rng.choice([1, 2, 2, 3])]
        techs = ["s", "d", "c"] if rng.random() < 0.7 else ["s", "d"]
        self.tech_defs = {
            "s": {"base_tech": "supply", "carrier_out": "e"},
            "d": {"base_tech": "demand", "carrier_in": "e"},
            "c": {"base_tech": "conversion", "carrier_in": "e", "carrier_out": "h"},
        }
        cin = {"s": [], "d": ["e"], "c": ["e"]}
        cout = {"s": ["e"], "d": [], "c": ["h"]}
        at = {n: [t for t in techs if rng.random() < 0.75] for n in nodes}
        for n in nodes:
            if not at[n]:
                at[n] = [rng.choice(techs)]
        for t in techs:
            if not any(t in v for v in at.values()):
                at[rng.choice(nodes)].append(t)
        self.at = {n: sorted(v) for n, v in at.items()}
        techs = sorted(techs)
        carriers = ["e", "h"] if "c" in techs else ["e"]
        nts = rng.choice([2, 3, 3])
        # steps that cross a day boundary
        self.start, self.nts = "2005-01-01 22:00", nts
        self.exists = [[n, t, c] for n in nodes for t in self.at[n] for c in carriers if c in cin[t] + cout[t]]
        import pandas as pd

        self.ts = [str(x) for x in pd.date_range(self.start, periods=nts, freq="h")]
        self.ts_id = {t: lp.canon_coord(t[:16]) for t in self.ts}
        self.dims = {
            "nodes": nodes, "techs": techs, "carriers": carriers,
            "timesteps": [self.ts_id[t] for t in self.ts],
            "bars": ["x", "y", "z"][: rng.choice([2, 3])],
        }
        self.real = {d: dict(zip(v, v)) for d, v in self.dims.items()}
        self.real["timesteps"] = {self.ts_id[t]: t for t in self.ts}
        self.periods = {}
        if focus == "helper":
            self.periods["date"] = {self.ts_id[t]: lp.canon_coord(t[:10] + " 00:00") for t in self.ts}
            self.periods["hour"] = {self.ts_id[t]: str(int(t[11:13])) for t in self.ts}
            for g in ("date", "hour"):
                self.dims[g] = sorted(set(self.periods[g].values()), key=lambda x: (len(x), x))
                self.real[g] = {i: (int(i) if g == "hour" else "-".join(i.split("_")[:3])) for i in self.dims[g]}
        self.inputs = {}
        self.decl = {}  # name -> declaration in the math
        self.make_inputs()

    def keys(self, dims):
        out = [{}]
        for d in dims:
            out = [{**k, d: i} for k in out for i in self.dims[d]]
        return out

    def key(self, dims, k):
        return "|".join(k[d] for d in dims)

    def put(self, name, dims, values, kind="parameters", default=float("nan"), boolean=False, dtype=None):
        """values: key string -> python value"""
        self.inputs[name] = {"kind": kind, "dims": list(dims) if values else [], "vals": {k: num(v) for k, v in values.items()},
                             "default": num(default), "bool": boolean}
        d = {}
        if not (isinstance(default, float) and math.isnan(default)):
            d["default"] = default
        if dtype:
            d["dtype"] = dtype
        self.decl[name] = (kind, d)

    def gappy(self, dims, gen, gap):
        r = self.rng
        ks = self.keys(dims)
        v = {self.key(dims, k): gen() for k in ks if r.random() >= gap}
        if not v:
            v = {self.key(dims, ks[0]): gen()}
        return v

    def make_inputs(self):
        r = self.rng
        nump = lambda: Fraction(*r.choice(NUMS))
        posn = lambda: Fraction(*r.choice([n for n in NUMS if n[0] > 0]))
        dft = lambda: r.choice([float("nan"), float("nan"), 0, 1, 2, -1])
        for d in ("timesteps", "bars", *self.periods):
            self.put(f"anchor_{d}", [d], {i: 1 for i in self.dims[d]})
        self.put("k0", [], {"": nump()}, default=dft())
        shapes = [["nodes"], ["nodes", "techs"], ["timesteps"], ["bars"], ["nodes", "timesteps"], ["techs"], ["techs", "bars"]]
        r.shuffle(shapes)
        for i, dims in enumerate(shapes[: r.choice([4, 5, 6])]):
            self.put(f"k{i + 1}", dims, self.gappy(dims, nump, r.choice([0, 0.3, 0.6])), default=dft())
        self.put("kn", ["nodes"], self.gappy(["nodes"], posn, 0.3), default=r.choice([1, 2]))  # positive divisors
        self.put("kinf", ["nodes"], self.gappy(["nodes"], lambda: r.choice([1, 2, float("inf")]), 0.3), default=r.choice([float("nan"), float("inf"), 0]))
        self.put("kd", ["nodes"], {}, default=r.choice([0, 3]))  # declared, no data
        self.put("kx", ["nodes"], {})  # declared, no data, no default
        bars = self.dims["bars"]
        self.put("gn", ["nodes"], self.gappy(["nodes"], lambda: r.choice(bars), 0.3), kind="lookups", dtype="string")
        self.put("gt", ["techs"], self.gappy(["techs"], lambda: r.choice(bars), 0.3), kind="lookups", dtype="string",
                 default=r.choice([float("nan"), bars[0]]))
        self.put("gnt", ["nodes", "techs"], self.gappy(["nodes", "techs"], lambda: r.choice(bars), 0.3), kind="lookups", dtype="string")
        self.put("ln", ["nodes"], self.gappy(["nodes"], lambda: r.choice(self.dims["nodes"]), 0.4), kind="lookups", dtype="string")
        self.put("fn", ["nodes"], self.gappy(["nodes"], lambda: r.random() < 0.6, 0.4), kind="lookups", dtype="bool", default=False, boolean=True)
        self.put("ft", ["nodes", "techs"], self.gappy(["nodes", "techs"], lambda: r.random() < 0.7, 0.4), kind="lookups", dtype="bool", default=False, boolean=True)
        self.put("fb", ["bars", "nodes"], self.gappy(["bars", "nodes"], lambda: r.random() < 0.7, 0.4), kind="lookups", dtype="bool", default=False, boolean=True)
        self.lnt = {}
        if self.focus == "helper":
            ks = self.keys(["nodes", "techs"])
            l1, l2 = {}, {}
            for k in ks:
                if r.random() < 0.7:
                    l1[self.key(["nodes", "techs"], k)] = r.choice(self.dims["nodes"])
                if r.random() < 0.7:
                    l2[self.key(["nodes", "techs"], k)] = r.choice(self.dims["techs"])
            if l1 and l2:
                self.put("ln2", ["nodes", "techs"], l1, kind="lookups", dtype="string")
                self.put("lt2", ["nodes", "techs"], l2, kind="lookups", dtype="string")
        for flow in ("in", "out"):
            cs = {"in": {"d": ["e"], "c": ["e"], "s": []}, "out": {"s": ["e"], "c": ["h"], "d": []}}[flow]
            vals = {self.key(["nodes", "techs", "carriers"], {"nodes": n, "techs": t, "carriers": c}): True
                    for n in self.dims["nodes"] for t in self.at[n] for c in cs[t]}
            self.inputs[f"carrier_{flow}"] = {"kind": "lookups", "dims": ["nodes", "techs", "carriers"], "vals": {k: num(v) for k, v in vals.items()},
                                              "default": ["b", False], "bool": True}
        self.inputs["base_tech"] = {"kind": "lookups", "dims": ["techs"], "vals": {t: ["s", self.tech_defs[t]["base_tech"]] for t in self.dims["techs"]},
                                    "default": NAN, "bool": False}

    # -- real definition ----------------------------------------------------
    def data(self, name):
        inp = self.inputs[name]
        if not inp["vals"]:
            return None
        vals = {k: unnum(v) for k, v in inp["vals"].items()}
        if not inp["dims"]:
            return vals[""]
        idx = [[self.real[d][i] for d, i in zip(inp["dims"], k.split("|"))] for k in vals]
        if len(inp["dims"]) == 1:
            idx = [i[0] for i in idx]
        return {"data": list(vals.values()), "index": idx, "dims": inp["dims"] if len(inp["dims"]) > 1 else inp["dims"][0]}

    def declarations(self):
        out = {"parameters": {}, "lookups": {}}
        for n, (kind, d) in self.decl.items():
            out[kind][n] = dict(d)
        dims = {"bars": {"iterator": "bar"}}
        if "date" in self.periods:
            dims["date"] = {"iterator": "date_", "dtype": "date"}
            dims["hour"] = {"iterator": "hour_", "dtype": "integer"}
        return dims, out["parameters"], out["lookups"]

    def definition(self, components, build=None, solve=None, init=None):
        dims, params, lookups = self.declarations()
        m = tiny.math(dimensions=dims, parameters=params, lookups=lookups, **components)
        m["parameters"].pop("q", None)
        data = {n: self.data(n) for n in self.decl}
        data = {n: v for n, v in data.items() if v is not None}
        d = tiny.definition(m, data=data, techs={t: self.tech_defs[t] for t in self.dims["techs"]},
                            nodes={n: {"techs": {t: None for t in ts}} for n, ts in self.at.items()}, build=build, solve=solve, init=init)
        d["data_definitions"].pop("q", None)
        return d

    def record(self):
        return {"dims": self.dims, "exists": self.exists, "inputs": copy.deepcopy(self.inputs), "periods": self.periods,
                "config": {"objective": ["s", "obj"], "ensure_feasibility": ["b", False]}}


# --------------------------------------------------------------------------
# text
# --------------------------------------------------------------------------
def num_text(n, d, rng=None):
    if d == 1:
        return str(n) if rng is None or rng.random() < 0.8 else rng.choice([f"{n}.0", f"{n}e0"])
    return repr(n / d)


PREC = {"+": 1, "-": 1, "*": 2, "/": 2, "neg": 3, "pos": 3, "**": 4}


def expr_text(e, rng=None, world=None):
    def paren(s):
        return f"({s})"

    def sp(op):
        if rng is None:
            return f" {op} "
        return rng.choice([f" {op} ", f" {op} ", op, f"  {op} "])

    def go(x, need=0):
        t = x[0]
        if t == "num":
            s, p = num_text(x[1], x[2], rng), 9
        elif t == "ref":
            s, p = x[1], 9
        elif t == "sub":
            s, p = "$" + x[1], 9
        elif t == "sl":
            s, p = f"{x[1]}[" + ", ".join(f"{d}={slice_text(v, world)}" for d, v in x[2].items()) + "]", 9
        elif t in ("neg", "pos"):
            s, p = ("-" if t == "neg" else "+") + go(x[1], 3), 3
        elif t in ("+", "-", "*", "/"):
            p = PREC[t]
            s = go(x[1], p) + sp(t) + go(x[2], p + 1)
        elif t == "**":
            p = 4
            s = go(x[1], 5) + sp("**") + go(x[2], 3)
        else:
            s, p = helper_text(x), 9
        if p < need or (rng is not None and rng.random() < 0.08 and t not in ("sl",)):
            s = paren(s)
        return s

    def lst(ds):
        if len(ds) == 1 and (rng is None or rng.random() < 0.6):
            return ds[0]
        return "[" + ", ".join(ds) + "]"

    def helper_text(x):
        t = x[0]
        a = go(x[1])
        if t == "sum":
            return f"sum({a}, over={lst(x[2])})"
        if t == "roll":
            return f"roll({a}, {x[2]}={x[3]})"
        if t == "where":
            return f"where({a}, {x[2]})"
        if t == "gsum":
            return f"group_sum({a}, {x[2]}, {x[3]})"
        if t == "gdt":
            return f"group_datetime({a}, {x[2]}, {x[3]})"
        if t == "nextn":
            return f"sum_next_n({a}, {x[2]}, {x[3]})"
        if t == "lookup":
            return f"select_from_lookup_arrays({a}, " + ", ".join(f"{d}={l}" for d, l in x[2].items()) + ")"
        if t == "redc":
            return f"reduce_carrier_dim({a}, {x[2]})"
        raise common.MachineryError(t)

    if e[0] in ("<=", ">=", "=="):
        return go(e[1]) + sp(e[0]) + go(e[2])
    return go(e)


def slice_text(v, world):
    if v[0] == "item":
        return v[1]
    if v[0] == "$":
        return "$" + v[1]
    if v[0] == "ref":
        return v[1]
    if v[0] == "at":
        return f"get_val_at_index({v[1]}={v[2]})"
    if v[0] == "list":
        return "[" + ", ".join(v[1]) + "]"
    raise common.MachineryError(str(v))


def where_text(w, rng=None, top=True):
    def case(s):
        return s if rng is None else rng.choice([s, s, s.upper()])

    t = w[0]
    if t == "bool":
        return case("True" if w[1] else "False") if rng is None or rng.random() < 0.5 else ("True" if w[1] else "False")
    if t == "has":
        return w[1]
    if t == "cmp":
        l = {"cfg": lambda: "config." + w[2][1], "dim": lambda: w[2][1]}.get(w[2][0], lambda: expr_text(w[2]))()
        r = w[3]
        rt = {"num": lambda: num_text(r[1], r[2]) if r[1] >= 0 else num_text(r[1], r[2]), "str": lambda: r[1], "bool": lambda: str(r[1]),
              "inf": lambda: "inf", "at": lambda: f"get_val_at_index({r[1]}={r[2]})"}[r[0]]()
        sp = "" if rng is not None and rng.random() < 0.7 else " "
        return f"{l}{sp}{w[1]}{sp}{rt}"
    if t == "in":
        return "[" + ", ".join(w[1]) + f"] in {w[2]}"
    if t == "any":
        over = w[2][0] if len(w[2]) == 1 and (rng is None or rng.random() < 0.6) else "[" + ", ".join(w[2]) + "]"
        return f"any({w[1]}, over={over})"
    if t == "defd":
        items = w[4][0] if len(w[4]) == 1 and (rng is None or rng.random() < 0.5) else "[" + ", ".join(w[4]) + "]"
        return f"defined({w[3]}={items}, within={w[1]}, how={w[2]})"
    if t == "not":
        inner = where_text(w[1], rng, False)
        if w[1][0] in ("and", "or"):
            inner = f"({inner})"
        return case("not") + " " + inner
    if t in ("and", "or"):
        l, r = where_text(w[1], rng, False), where_text(w[2], rng, False)
        if w[1][0] in ("and", "or") and w[1][0] != t:
            l = f"({l})"
        if w[2][0] in ("and", "or"):
            r = f"({r})"
        s = f"{l} {case(t)} {r}"
        return f"({s})" if rng is not None and rng.random() < 0.1 and not top else s
    raise common.MachineryError(t)


# --------------------------------------------------------------------------
# math
# --------------------------------------------------------------------------
TRUE = ["bool", True]


class Gen:
    def __init__(self, world: World, rng):
        self.w, self.rng = world, rng
        self.built = {}  # linear components: name -> dims
        self.n = 0

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def dims_of(self, n):
        return self.built[n] if n in self.built else self.w.inputs[n]["dims"]

    # -- where -------------------------------------------------------------
    def where(self, dims, depth=2, extra=0.1):
        r, w = self.rng, self.w
        if depth > 0 and r.random() < 0.55:
            t = r.choice(["not", "and", "and", "or", "or"])
            if t == "not":
                return ["not", self.where(dims, depth - 1, extra)]
            return [t, self.where(dims, depth - 1, extra), self.where(dims, depth - 1, extra)]
        allowed = set(dims)
        if r.random() < extra:
            allowed |= {r.choice(["nodes", "techs", "carriers", "bars", "timesteps"])}
        ok = lambda ds: set(ds) <= allowed
        opts = ["has", "has", "cmp", "cmp", "dim", "in", "any", "defd", "cfg", "bool", "res"]
        for _ in range(20):
            t = r.choice(opts)
            if t == "bool":
                return ["bool", r.random() < 0.8]
            if t == "has":
                c = [n for n, i in w.inputs.items() if ok(i["dims"])]
                if c:
                    return ["has", r.choice(c)]
            if t == "res":
                c = [n for n, d in self.built.items() if ok(d)]
                if c:
                    return ["has", r.choice(c)]
            if t == "cmp":
                c = [n for n, i in w.inputs.items() if ok(i["dims"]) and not n.startswith("anchor")]
                n = r.choice(c)
                i = w.inputs[n]
                if i["bool"]:
                    return ["cmp", "==", ["ref", n], ["bool", r.random() < 0.5]]
                if i["kind"] == "lookups":
                    vs = sorted({v[1] for v in i["vals"].values() if v[0] == "s"}) + ["zz"]
                    return ["cmp", "==", ["ref", n], ["str", r.choice(vs)]]
                e = ["ref", n]
                finite = all(v[0] == "n" for v in i["vals"].values()) and i["default"][0] in ("n", "nan")
                if finite and r.random() < 0.3:
                    e = [r.choice(["+", "-", "*"]), e, ["num", *r.choice([[1, 1], [2, 1], [1, 2]])]]
                rhs = ["inf"] if r.random() < 0.1 else ["num", *r.choice([n_ for n_ in NUMS] + [[0, 1]])]
                return ["cmp", r.choice(["<", "<=", ">", ">=", "=="]), e, rhs]
            if t == "dim":
                d = r.choice([x for x in ("nodes", "techs", "carriers", "bars", "timesteps") if x in allowed] or ["-"])
                if d == "-":
                    continue
                if d == "timesteps":
                    return ["cmp", r.choice(["<", "<=", ">", ">=", "=="]), ["dim", d], ["at", d, r.choice([0, 1, -1, -2])]]
                return ["cmp", "==", ["dim", d], ["str", r.choice(w.dims[d])]]
            if t == "in":
                ds = [x for x in ("nodes", "techs", "carriers", "bars") if x in allowed]
                if ds:
                    d = r.choice(ds)
                    return ["in", r.sample(w.dims[d], r.randint(1, len(w.dims[d]))), d]
            if t == "any":
                c = [n for n, i in w.inputs.items() if i["dims"] and not n.startswith("anchor")] + list(self.built)
                n = r.choice(c)
                ds = self.dims_of(n)
                over = [x for x in ds if x not in allowed]
                over += [x for x in ds if x in allowed and r.random() < 0.3]
                if not over:
                    over = [r.choice(["nodes", "techs"])]
                return ["any", n, over]
            if t == "defd":
                core = ["nodes", "techs", "carriers"]
                within = r.choice([x for x in core if x in allowed] or ["-"])
                if within == "-":
                    continue
                d = r.choice([x for x in core if x != within])
                return ["defd", within, r.choice(["any", "all"]), d, r.sample(w.dims[d], r.randint(1, min(2, len(w.dims[d]))))]
            if t == "cfg":
                return r.choice([["cmp", "==", ["cfg", "objective"], ["str", r.choice(["obj", "other"])]],
                                 ["cmp", "==", ["cfg", "ensure_feasibility"], ["bool", r.random() < 0.5]]])
        return ["bool", True]

    # -- expressions -------------------------------------------------------
    def refs(self, dims, lin):
        w = self.w
        c = [n for n, i in w.inputs.items() if i["kind"] == "parameters" and set(i["dims"]) <= set(dims)
             and n not in ("kinf", "kx") and not n.startswith("anchor")]
        v = [n for n, d in self.built.items() if set(d) <= set(dims)] if lin else []
        return c, v

    def atom(self, dims, lin, scope):
        r, w = self.rng, self.w
        c, v = self.refs(dims, lin)
        x = r.random()
        if scope and scope.get("slices") and x < 0.18:
            d = r.choice(list(scope["slices"]))
            n = self.with_dim(d, dims, lin)
            if n:
                return ["sl", n, {d: ["$", scope["slices"][d]]}]
        if x < 0.3:
            d = r.choice([k for k in ("nodes", "techs", "bars") if k in w.dims])
            n = self.with_dim(d, dims, lin)
            if n:
                s = ["item", r.choice(w.dims[d])]
                if d in dims and r.random() < 0.15:
                    s = ["list", w.dims[d]]
                return ["sl", n, {d: s}]
        if scope and scope.get("subs") and x < 0.5:
            ss = [n for n, (ds, l, _) in scope["subs"].items() if set(ds) <= set(dims) and (lin or not l)]
            if ss:
                return ["sub", r.choice(ss)]
        if v and x < 0.75:
            return ["ref", r.choice(v)]
        if c and x < 0.93:
            return ["ref", r.choice(c)]
        return ["num", *r.choice([[1, 1], [2, 1], [3, 1], [1, 2]])]

    def with_dim(self, d, dims, lin):
        """a component indexed over d whose other dimensions are allowed"""
        w = self.w
        c = [n for n, i in w.inputs.items() if i["kind"] == "parameters" and d in i["dims"] and not n.startswith("anchor")
             and n != "kinf" and set(i["dims"]) - {d} <= set(dims)]
        v = [n for n, ds in self.built.items() if d in ds and set(ds) - {d} <= set(dims)] if lin else []
        c = v * 2 + c
        return self.rng.choice(c) if c else None

    def expr(self, dims, lin=True, depth=3, scope=None, helpers=False):
        r = self.rng
        if depth == 0 or r.random() < 0.15:
            return self.atom(dims, lin, scope)
        if helpers and r.random() < 0.45:
            h = self.helper(dims, lin, depth - 1, scope)
            if h is not None:
                return h
        t = r.choice(["+", "+", "-", "-", "*", "*", "/", "neg", "pos", "**", "sum"])
        if t in "+-":
            return [t, self.expr(dims, lin, depth - 1, scope, helpers), self.expr(dims, lin, depth - 1, scope, helpers)]
        if t == "*":
            a, b = self.expr(dims, lin, depth - 1, scope, helpers), self.expr(dims, False, depth - 1, scope, helpers)
            return ["*", *r.sample([a, b], 2)]
        if t == "/":
            den = r.choice([["num", 2, 1], ["num", 4, 1], ["num", 1, 2]] + ([["ref", "kn"]] if "nodes" in dims else []))
            return ["/", self.expr(dims, lin, depth - 1, scope, helpers), den]
        if t in ("neg", "pos"):
            return [t, self.expr(dims, lin, depth - 1, scope, helpers)]
        if t == "**":
            c, _ = self.refs(dims, False)
            base = r.choice([["num", 2, 1], ["num", 3, 1]] + [["ref", n] for n in c])
            ex = r.choice([["num", 2, 1], ["num", 2, 1], ["num", 1, 1], ["**", ["num", 2, 1], ["num", 1, 1]]])
            if base[0] == "num" and r.random() < 0.3:
                ex = r.choice([["neg", ["num", 1, 1]], ["**", ["num", 1, 1], ["num", 3, 1]], ["**", ["num", 2, 1], ["num", 2, 1]]])
            p = ["**", base, ex]
            if r.random() < 0.3:
                p = ["neg", p] if r.random() < 0.5 else ["**", ["neg", base], ["num", 2, 1]]
            return ["*", p, self.expr(dims, lin, depth - 1, scope, helpers)] if lin and r.random() < 0.6 else p
        # summation over dimensions outside (or inside) the allowed ones
        over = r.sample([d for d in ("nodes", "techs", "carriers", "bars", "timesteps") if d in self.w.dims], r.choice([1, 1, 2]))
        return ["sum", self.expr(list(set(dims) | set(over)), lin, depth - 1, scope, helpers), over]

    def dims_expr(self, e, scope=None):
        """dimensions of an expression (mirrors EDims; only steers generation)"""
        t = e[0]
        D = lambda x: self.dims_expr(x, scope)
        if t == "num":
            return set()
        if t == "ref":
            return set(self.dims_of(e[1]))
        if t == "sub":
            return set(scope["subs"][e[1]][2]) if scope else set()
        if t == "sl":
            ds = set(self.dims_of(e[1]))
            for d, s in e[2].items():
                if s[0] != "list":
                    ds -= {d}
                if s[0] == "ref":
                    ds |= set(self.dims_of(s[1]))
            return ds
        if t in ("neg", "pos", "roll", "nextn", "lookup"):
            return D(e[1])
        if t in ("+", "-", "*", "/", "**"):
            return D(e[1]) | D(e[2])
        if t == "sum":
            return D(e[1]) - set(e[2])
        if t == "where":
            return D(e[1]) | set(self.dims_of(e[2]))
        if t == "gsum":
            return (D(e[1]) - set(self.dims_of(e[2]))) | {e[3]}
        if t == "gdt":
            return (D(e[1]) - {e[2]}) | {e[3]}
        if t == "redc":
            return (D(e[1]) | {"nodes", "techs"}) - {"carriers"}
        raise common.MachineryError(t)

    def arg(self, dims, lin, depth, scope, must):
        """an expression that is indexed over all of `must`"""
        for _ in range(25):
            e = self.expr(dims, lin, max(0, min(depth, 1)), scope, depth > 1)
            if set(must) <= self.dims_expr(e, scope):
                return e
        return None

    def helper(self, dims, lin, depth, scope):
        r, w = self.rng, self.w
        dims = set(dims)
        t = r.choice(["sum", "where", "roll", "gsum", "gdt", "nextn", "lookup", "redc"])
        if t == "sum":
            over = r.sample([d for d in w.dims], r.choice([1, 1, 2]))
            e = self.arg(dims | set(over), lin, depth, scope, [over[0]])
            return e and ["sum", e, over]
        if t == "where":
            c = [n for n in ("fn", "ft", "fb") if n in w.inputs and set(w.inputs[n]["dims"]) <= dims and w.inputs[n]["dims"]]
            if not c:
                return None
            e = self.arg(dims, lin, depth, scope, [])
            return ["where", e, r.choice(c)] if e and self.dims_expr(e, scope) else None
        if t == "roll":
            ds = [d for d in dims if d in ("timesteps", "nodes", "bars")]
            if not ds:
                return None
            d = r.choice(ds)
            e = self.arg(dims, lin, depth, scope, [d])
            return e and ["roll", e, d, r.choice([-2, -1, 1, 2, 4])]
        if t == "gsum":
            if "bars" not in dims:
                return None
            g = r.choice(["gn", "gt", "gnt"])
            gd = w.inputs[g]["dims"]
            e = self.arg((dims - {"bars"}) | set(gd), lin, depth, scope, gd)
            return e and ["gsum", e, g, "bars"]
        if t == "gdt":
            ps = [p for p in w.periods if p in dims]
            if not ps:
                return None
            p = r.choice(ps)
            e = self.arg((dims - {p}) | {"timesteps"}, lin, depth, scope, ["timesteps"])
            return e and ["gdt", e, "timesteps", p]
        if t == "nextn":
            ds = [d for d in dims if d in ("timesteps", "bars")]
            if not ds:
                return None
            d = r.choice(ds)
            e = self.arg(dims, lin, depth, scope, [d])
            return e and ["nextn", e, d, r.choice([1, 2, 3])]
        if t == "lookup":
            if {"nodes", "techs"} <= dims and "ln2" in w.inputs and r.random() < 0.6:
                e = self.arg(dims, lin, depth, scope, ["nodes", "techs"])
                return e and ["lookup", e, {"nodes": "ln2", "techs": "lt2"}]
            if "nodes" in dims:
                e = self.arg(dims, lin, depth, scope, ["nodes"])
                return e and ["lookup", e, {"nodes": "ln"}]
            return None
        if not {"nodes", "techs"} <= dims:
            return None
        e = self.arg(dims | {"carriers"}, lin, depth, scope, ["carriers"])
        return e and ["redc", e, r.choice(["in", "out"])]

    # -- undefined-value guards ---------------------------------------------
    def gaps(self, e):
        """names that can be undefined somewhere in e"""
        out = set()
        if isinstance(e, list):
            if e and e[0] == "ref" and isinstance(e[1], str):
                n = e[1]
                if n in self.w.inputs and self.w.inputs[n]["default"] == NAN and self.w.inputs[n]["kind"] == "parameters":
                    out.add(n)
                if n in self.built:
                    out.add(n)
                return out
            for x in e:
                out |= self.gaps(x)
        return out

    # -- components ----------------------------------------------------------
    FOREACH = [[], ["nodes"], ["nodes"], ["techs"], ["nodes", "techs"], ["nodes", "techs", "carriers"], ["timesteps"], ["nodes", "timesteps"],
               ["nodes", "techs", "timesteps"], ["bars"], ["nodes", "bars"], ["techs", "bars"]]

    def foreach(self, must=()):
        for _ in range(50):
            f = list(self.rng.choice(self.FOREACH + ([["nodes", "date"], ["date"], ["hour", "nodes"]] if "date" in self.w.dims else [])))
            if set(must) <= set(f):
                self.rng.shuffle(f)
                return f
        return list(must)

    def variable(self, wdepth=1, simple=0.4):
        r, w = self.rng, self.w
        f = self.foreach()
        where = TRUE if r.random() < simple else self.where(f, wdepth)
        b = lambda side: r.choice([["n", 0, 1], ["n", -5, 1] if side == "lb" else ["n", 10, 1], ["inf", -1 if side == "lb" else 1]]
                                  + [["ref", n] for n in ("kn", "kd", "k0") if set(w.inputs[n]["dims"]) <= set(f) and w.inputs[n]["default"] != NAN])
        return {"kind": "variables", "name": self.name("v"), "foreach": f, "where": where, "lb": b("lb"), "ub": b("ub"),
                "domain": r.choice(["real", "real", "integer"]), "default": r.choice([NAN, ["n", 0, 1], ["n", 0, 1], ["n", 1, 1]])}

    def component(self, kind, helpers=False, depth=3, wdepth=2, free=None):
        """An expression-bearing component. For constraints, `free` is a variable added to the left-hand side so
        that no row is free of variables."""
        r = self.rng
        f = [] if kind == "objectives" else self.foreach(())
        c = {"kind": kind, "name": self.name({"constraints": "c", "global_expressions": "g", "objectives": "o"}[kind]),
             "foreach": f, "sub_expressions": {}, "slices": {}, "where": TRUE}
        scope = {"slices": {}, "subs": {}}
        if r.random() < 0.3:
            d = r.choice(["nodes", "techs", "bars"])
            nm = self.name("sl")
            alts = [{"expression": ["item", r.choice(self.w.dims[d])], "where": TRUE}]
            if r.random() < 0.5:
                wh = self.where(f, 1)
                alts = [{"expression": ["item", r.choice(self.w.dims[d])], "where": wh},
                        {"expression": ["item", r.choice(self.w.dims[d])], "where": ["not", wh] if r.random() < 0.9 else self.where(f, 1)}]
            if d == "bars" and r.random() < 0.3 and "nodes" in f and len(self.w.inputs["gn"]["vals"]) == len(self.w.dims["nodes"]):
                alts[0]["expression"] = ["ref", "gn"]
            c["slices"][nm] = alts
            scope["slices"][d] = nm
        for _ in range(r.choice([0, 0, 1, 2]) if depth > 1 else 0):
            nm = self.name("se")
            lin = r.random() < 0.6
            ds = [d for d in f if r.random() < 0.8]
            sc = {"slices": scope["slices"], "subs": {}}
            wh = self.where(f, 1)
            alts = [{"expression": self.expr(ds, lin, 1, sc, helpers), "where": TRUE}]
            if r.random() < 0.6:
                alts = [{"expression": self.expr(ds, lin, 1, sc, helpers), "where": wh},
                        {"expression": self.expr(ds, lin, 1, sc, helpers), "where": ["not", wh] if r.random() < 0.85 else self.where(f, 1)}]
            c["sub_expressions"][nm] = alts
            # what every alternative is certain to be indexed over
            scope["subs"][nm] = (ds, lin, sorted(set.intersection(*[self.dims_expr(a["expression"], scope) for a in alts])))
        n = r.choice([1, 1, 1, 2, 3])
        wh = self.where(f, 1)
        wheres = [TRUE] if n == 1 else [wh, ["not", wh]] if n == 2 else [wh, ["and", ["not", wh], (w2 := self.where(f, 0))], ["and", ["not", wh], ["not", w2]]]
        if r.random() < 0.12:
            wheres[-1] = self.where(f, 1)
        eqs = []
        for k in range(n):
            e = self.expr(f, kind != "nothing", depth, scope, helpers)
            if kind == "constraints":
                e = [r.choice(["<=", ">=", "=="]), ["+", ["ref", free], e] if r.random() < 0.5 else ["-", e, ["ref", free]],
                     self.expr(f, True, 1, scope, helpers)]
                if r.random() < 0.3:
                    e = [e[0], e[2], e[1]]
            eqs.append({"where": wheres[k], "expression": e})
        c["equations"] = eqs
        used = set()
        for e in eqs:
            used |= names_in(e["expression"], "sub")
        c["sub_expressions"] = {k: v for k, v in c["sub_expressions"].items() if k in used}
        usl = set()
        for e in eqs + [a for v in c["sub_expressions"].values() for a in v]:
            usl |= names_in(e["expression"], "$")
        c["slices"] = {k: v for k, v in c["slices"].items() if k in usl}
        w = self.where(f, wdepth) if r.random() < 0.5 else TRUE
        if r.random() < 0.75:  # restrict to where everything referenced is defined
            for g in sorted(self.gaps([e["expression"] for e in eqs] + [a["expression"] for v in c["sub_expressions"].values() for a in v])):
                if g != free and set(self.dims_of(g)) <= set(f):
                    w = ["and", w, ["has", g]] if w != TRUE else ["has", g]
        c["where"] = w
        if kind == "objectives":
            c["sense"] = r.choice(["min", "max"])
        c["default"] = r.choice([NAN, ["n", 0, 1], ["n", 2, 1]])
        return c


def names_in(e, tag):
    out = set()
    if isinstance(e, dict):
        for v in e.values():
            out |= names_in(v, tag)
    elif isinstance(e, list):
        if len(e) == 2 and e[0] == tag and isinstance(e[1], str):
            out.add(e[1])
        for x in e:
            out |= names_in(x, tag)
    return out


SENSE = {"min": "minimise", "max": "maximise"}


def component_def(c, rng=None, world=None):
    """The definition dictionary of a component."""
    d = {}
    if c["foreach"]:
        d["foreach"] = c["foreach"]
    if c["where"] != TRUE:
        d["where"] = where_text(c["where"], rng)
    if c["kind"] == "variables":
        b = lambda v: v[1] if v[0] == "ref" else unnum(v)
        d["bounds"] = {"min": b(c["lb"]), "max": b(c["ub"])}
        d["domain"] = c["domain"]
    else:
        def alt(a, group):
            x = {"expression": slice_text(a["expression"], world) if group == "slices" else expr_text(a["expression"], rng, world)}
            if a["where"] != TRUE:
                x["where"] = where_text(a["where"], rng)
            return x

        d["equations"] = [alt(a, "equations") for a in c["equations"]]
        for g in ("sub_expressions", "slices"):
            if c[g]:
                d[g] = {k: [alt(a, g) for a in v] for k, v in c[g].items()}
    if c["kind"] in ("variables", "global_expressions") and c["default"] != NAN:
        d["default"] = unnum(c["default"])
    if c["kind"] == "objectives":
        d["sense"] = SENSE[c["sense"]]
    return d


def spec_component(c, uid):
    out = {k: c[k] for k in ("kind", "name", "foreach", "where")}
    out["uid"] = uid
    for k in ("equations", "sub_expressions", "slices", "lb", "ub", "sense", "default"):
        if k in c:
            out[k] = c[k]
    if "domain" in c:
        out["domain"] = "int" if c["domain"] == "integer" else "real"
    return out


# --------------------------------------------------------------------------
# observing a backend
# --------------------------------------------------------------------------
KINDS = ("variables", "global_expressions", "constraints", "objectives")


def coord(x):
    import numpy as np
    import pandas as pd

    if isinstance(x, np.datetime64):
        t = pd.Timestamp(x)
        return lp.canon_coord(t.strftime("%Y-%m-%d %H:%M"))
    return lp.canon_coord(str(x))


def members(backend, foreach):
    """Every listed component with the ids of its members (coordinates in foreach order)."""
    import numpy as np

    out = []
    for kind in KINDS:
        for name, da in getattr(backend, kind).data_vars.items():
            nn = da.notnull()
            ids = []
            fe = [d for d in foreach.get(name, da.dims) if d in da.dims]
            if da.dims:
                for pos in np.argwhere(nn.transpose(*fe).values):
                    ids.append([str(name), *[coord(da[d].values[p]) for d, p in zip(fe, pos)]])
            elif bool(nn.item()):
                ids.append([str(name)])
            out.append({"kind": kind, "name": str(name), "ids": ids})
    return out


def lp_of(backend, d):
    c = lp.canonical(lp.read(backend, d))
    sp = lambda s: s.split("/")
    c["rows"] = [{**r, "id": sp(r["id"]), "terms": [[sp(t), k] for t, k in r["terms"]]} for r in c["rows"]]
    c["vars"] = [[sp(v[0]), *v[1:]] for v in c["vars"]]
    c["obj"] = [[sp(t), k] for t, k in c["obj"]]
    return c


def holds_undefined(backend, c):
    """Whether an undefined value sits inside an accepted component (both backends print it as `nan`)."""
    da = backend._dataset[c["name"]]
    gurobi = type(backend).__name__.startswith("Gurobi")
    if gurobi:
        backend._instance.update()
    for obj in da.values.flat if da.dims else [da.item()]:
        if obj is None or isinstance(obj, float):
            continue
        if gurobi and c["kind"] == "constraints":
            txt = f"{backend._instance.getRow(obj)} {obj.RHS}" if hasattr(obj, "RHS") else str(obj)
        else:
            txt = str(getattr(obj, "expr", obj))
        if re.search(r"(?<![A-Za-z_])nan(?![A-Za-z_])", txt):
            return True
    return False


def add(backend, c, d):
    getattr(backend, "add_" + c["kind"].removesuffix("s"))(c["name"], copy.deepcopy(d))


def restrict(m, comps):
    """keep only the inputs a set of components mentions (records stay small)"""
    txt = json.dumps(comps)
    keep = {n for n in m["inputs"] if f'"{n}"' in txt} | {"carrier_in", "carrier_out"}
    m["inputs"] = {n: v for n, v in m["inputs"].items() if n in keep}
    return m
