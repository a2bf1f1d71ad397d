"""P17: solved energy systems and what they have to satisfy (spec/EnergyCore.tla, Energy.tla)."""

from __future__ import annotations

import random
import traceback

from harness import common

NONE, INF, U = -1, 10**9, 10**4
YEAR = 8760


def unit(x, k=U):
    n = round(float(x) * k)
    return max(-2 * 10**9, min(2 * 10**9, n))


class Case:
    def __init__(self, cid, seed, kind):
        self.id, self.kind = cid, kind
        self.rng = rng = random.Random(str(seed))
        self.clustered = kind == "cluster"
        self.milp = kind == "milp"
        self.carriers = ["e", "h"] if rng.random() < 0.6 else ["e"]
        self.nodes = ["a", "b"] if rng.random() < 0.6 else ["a"]
        self.classes = ["c1", "c2", "c3"][: rng.choice([1, 2, 2, 3])]
        if self.clustered:
            days = rng.randint(2, 4)
            self.res = [12] * (2 * days) if rng.random() < 0.7 else [8] * (3 * days)
            per = 24 // self.res[0]
            self.offsets = [k * self.res[0] for k in range(per * days)]
            of = [d + 1 for d in range(days)]
            reps = sorted(rng.sample(of, rng.randint(1, days - 1) if days > 1 else 1))
            self.rep = {d: (d if d in reps else rng.choice(reps)) for d in of}
            self.day = [d for d in of for _ in range(per)]
            self.keep = [k for k, d in enumerate(self.day) if d in reps]
            self.w = [sum(r == self.day[k] for r in self.rep.values()) for k in range(len(self.day))]
        else:
            T = rng.randint(2, 5)
            uneven = rng.random() < 0.4
            self.res = [rng.choice([1, 2]) for _ in range(T)] if uneven else [rng.choice([1, 1, 2])] * T
            self.res[-1] = self.res[-2]
            self.offsets = [sum(self.res[:k]) for k in range(T)]
            self.day, self.keep, self.rep = [1] * T, list(range(T)), {}
            self.w = [rng.choice([1, 1, 2, 3]) for _ in range(T)] if rng.random() < 0.5 else [1] * T
        self.N = len(self.res)
        self.feas = rng.random() < 0.85
        # how often there is something that makes solutions hard to find
        # storage is cyclic unless it is said for some technology whether it is (then: where it is said to be)
        self.allcyclic = not self.clustered and rng.random() < 0.25
        self.hard = rng.choice([0.2, 0.5, 1])
        self.bigM = rng.choice([50, 100, 30])
        self.inst, self.techs, self.at, self.table = [], {}, {n: {} for n in self.nodes}, {}
        self.wide, self.links = {}, {}
        self.generate()
        self.avail = {n: (rng.randint(1, 12) if rng.random() < 0.4 and any(p["node"] == n and p["area"] for p in self.inst) else NONE) for n in self.nodes}

    def maybe(self, p):
        return self.rng.random() < p * self.hard

    # -- the system, for the specification and for calliope
    def fresh(self, tech, base):
        N = self.N
        cost = {c: {k: 0 for k in ("cap", "dist", "stor", "src", "area", "omcap", "omfrac", "buy", "buyd")} | {"dep": NONE, "life": NONE, "rate": NONE}
                | {k: [0] * N for k in ("out", "in", "exp", "use")} for c in self.classes}
        return {
            "tech": tech, "node": "", "base": base, "cin": [], "cout": [], "cexp": [], "st": base == "storage", "ieff": [100] * N, "oeff": [100] * N, "seff": [100] * N,
            "paras": 100, "minrel": NONE, "ramp": NONE, "loss": 0, "init": 0, "depth": NONE, "fpsmin": NONE, "fpsmax": NONE, "aper": NONE,
            "srceq": [NONE] * N, "srcmax": [NONE] * N, "srcmin": [NONE] * N, "snkeq": [NONE] * N, "snkmax": [NONE] * N, "snkmin": [NONE] * N, "sunit": "absolute", "kunit": "absolute",
            "capmin": 0, "capmax": INF, "stmin": 0, "stmax": INF, "scmin": 0, "scmax": INF, "sceq": False, "amin": 0, "amax": INF, "exmin": 0, "exmax": INF,
            "dist": 1, "iepd": 100, "oepd": 100, "cyclic": False, "hasinit": False, "area": False,
            "int": False, "disp": False, "async": False, "umin": 0, "umax": INF, "fcpu": NONE, "scpu": NONE, "cost": cost,
        }

    def put(self, p, d, key, name, value, definition):
        """One parameter: into the record and into the definition."""
        p[key] = value
        d[name] = definition

    def series(self, p, key, name, values, scale=1.0):
        p[key] = values
        self.table[name, p["node"], p["tech"]] = [None if v == NONE else v * scale for v in values]

    def costs(self, p, d):
        rng, N = self.rng, self.N

        def param(key, name, vals, scale):
            if rng.random() < 0.5:
                return
            some = {c: rng.choice(vals) for c in self.classes if rng.random() < 0.7}
            if not some:
                return
            for c, v in some.items():
                p["cost"][c][key] = v
            d[name] = {"data": [v * scale for v in some.values()], "index": list(some), "dims": "costs"} if len(some) > 1 or rng.random() < 0.5 else {"data": next(iter(some.values())) * scale, "index": next(iter(some)), "dims": "costs"}

        param("cap", "cost_flow_cap", [1, 2, 5, 9] + [-1] * (p["capmax"] != INF), YEAR)
        if p["base"] == "transmission":
            param("dist", "cost_flow_cap_per_distance", [1, 3], YEAR)
        if p["st"]:
            param("stor", "cost_storage_cap", [1, 2, 4], YEAR)
        if p["base"] == "supply" and p["scmax"] != INF:
            param("src", "cost_source_cap", [1, 3, 7], YEAR)
        if p["area"]:
            param("area", "cost_area_use", [1, 2, 6], YEAR)
        if p["int"]:
            param("buy", "cost_purchase", [1, 4, 20], YEAR)
            if p["base"] == "transmission":
                param("buyd", "cost_purchase_per_distance", [2, 5], YEAR)
        param("omcap", "cost_om_annual", [1, 2, 3], YEAR)
        param("omfrac", "cost_om_annual_investment_fraction", [10, 25, 50], 0.01)
        # how an investment becomes a yearly cost
        how = rng.choice(["dep", "dep", "life", "lifezero", "rate", "rate", "none"])
        if how == "dep":
            some = {c: rng.choice([5, 10, 25, 100]) for c in self.classes}
            for c, v in some.items():
                p["cost"][c]["dep"] = v
            d["cost_depreciation_rate"] = {"data": [v / 100 for v in some.values()], "index": list(some), "dims": "costs"}
            if rng.random() < 0.3:
                d["lifetime"] = 10
        elif how != "none":
            d["lifetime"] = life = rng.choice([1, 2, 4, 5, 10])
            for c in self.classes:
                p["cost"][c]["life"] = life
            if how != "life":
                some = {c: (rng.choice([10, 20, 50]) if how == "rate" else 0) for c in self.classes if rng.random() < 0.8}
                if some:
                    for c, v in some.items():
                        p["cost"][c]["rate"] = v
                    d["cost_interest_rate"] = {"data": [v / 100 for v in some.values()], "index": list(some), "dims": "costs"}
        # per flow
        for key, name, vals in (("out", "cost_flow_out", [1, 2, 5, 9, -2]), ("in", "cost_flow_in", [1, 3, 8, -1]), ("exp", "cost_export", [-1, -3, -6, 2]), ("use", "cost_source_use", [1, 2, 4, 7])):
            if not {"out": p["cout"], "in": p["cin"], "exp": p["cexp"], "use": p["base"] == "supply"}[key] or rng.random() < 0.4:
                continue
            for c in self.classes:
                if rng.random() < 0.6:
                    p["cost"][c][key] = xs = [rng.choice(vals)] * N if rng.random() < 0.5 else [rng.choice(vals) for _ in range(N)]
                    self.table[name, p["node"], p["tech"], c] = xs

    def common_params(self, p, d):
        rng, N = self.rng, self.N
        if self.milp and rng.random() < 0.6 and p["base"] != "demand":
            self.integer(p, d)
        if p["fcpu"] == NONE:
            m = rng.randint(1, 20) if p["base"] != "demand" or self.maybe(0.2) else 40 + rng.randint(0, 20)
            self.put(p, d, "capmax", "flow_cap_max", m, m)
            if self.maybe(0.25):
                lo = rng.randint(0, m)
                self.put(p, d, "capmin", "flow_cap_min", lo, lo)
        for key, name, has in (("ieff", "flow_in_eff", p["cin"]), ("oeff", "flow_out_eff", p["cout"])):
            if has and rng.random() < 0.5:
                if rng.random() < 0.4:
                    self.series(p, key, name, [rng.choice([50, 80, 90, 100]) for _ in range(N)], 0.01)
                else:
                    v = rng.choice([50, 75, 80, 90])
                    self.put(p, d, key, name, [v] * N, v / 100)
        if p["cout"] and rng.random() < 0.3:
            v = rng.choice([50, 80, 90])
            self.put(p, d, "paras", "flow_out_parasitic_eff", v, v / 100)
        if p["cout"] and self.maybe(0.25):
            v = rng.choice([10, 30, 50])
            self.put(p, d, "minrel", "flow_out_min_relative", v, v / 100)
        if not self.clustered and self.maybe(0.3 if p["base"] != "demand" else 0.05):
            v = rng.choice([10, 20, 50])
            self.put(p, d, "ramp", "flow_ramping", v, v / 100)

    def integer(self, p, d):
        rng = self.rng
        p["int"], d["cap_method"] = True, "integer"
        m = rng.randint(1, 4)
        if rng.random() < 0.5:
            v = rng.randint(1, 6)
            self.put(p, d, "fcpu", "flow_cap_per_unit", v, v)
        else:
            m = rng.choice([1, 1, 2])
        self.put(p, d, "umax", "purchased_units_max", m, m)
        if self.maybe(0.4):
            v = rng.randint(0, m)
            self.put(p, d, "umin", "purchased_units_min", v, v)
        if rng.random() < 0.6 and (p["fcpu"] != NONE or m == 1):
            p["disp"], d["integer_dispatch"] = True, True
        if p["st"] and rng.random() < 0.5:
            v = rng.randint(1, 8)
            self.put(p, d, "scpu", "storage_cap_per_unit", v, v)

    def store(self, p, d):
        rng = self.rng
        p["st"] = True
        if p["scpu"] == NONE:
            m = rng.randint(2, 30)
            self.put(p, d, "stmax", "storage_cap_max", m, m)
            if self.maybe(0.3):
                lo = rng.randint(0, m)
                self.put(p, d, "stmin", "storage_cap_min", lo, lo)
        if rng.random() < 0.6:
            v = rng.choice([1, 5, 10, 20])
            self.put(p, d, "loss", "storage_loss", v, v / 100)
        p["cyclic"] = cyc = self.allcyclic or (not self.clustered and rng.random() < 0.5)
        if not self.allcyclic:
            d["cyclic_storage"] = cyc
        if self.maybe(0.5) if cyc else rng.random() < 0.5:
            v = rng.choice([10, 25, 50, 75])
            self.put(p, d, "init", "storage_initial", v, v / 100)
            p["hasinit"] = True
        if not self.clustered and rng.random() < 0.3:
            v = rng.choice([5, 10, 20])
            self.put(p, d, "depth", "storage_discharge_depth", v, v / 100)
        for key, name, vals in (("fpsmin", "flow_cap_per_storage_cap_min", [5, 10, 20]), ("fpsmax", "flow_cap_per_storage_cap_max", [20, 50, 100])):
            if self.maybe(0.35):
                v = rng.choice(vals)
                self.put(p, d, key, name, v, v / 100)

    def area(self, p, d, need, wide=False):
        rng = self.rng
        if not (need or rng.random() < 0.25):
            return
        p["area"] = True
        m = rng.randint(1, 15) if not wide else 80
        self.put(p, d, "amax", "area_use_max", m, m)
        if self.maybe(0.3):
            lo = rng.randint(0, m)
            self.put(p, d, "amin", "area_use_min", lo, lo)
        if self.maybe(0.5 if not wide else 0.1):
            v = rng.choice([50, 150, 200])
            self.put(p, d, "aper", "area_use_per_flow_cap", v, v / 100)

    def amounts(self, p, d, kind, unit_key, unit_name):
        """How much there is of a source or a sink."""
        rng, N = self.rng, self.N
        pre = {"src": "source_use_", "snk": "sink_use_"}[kind]
        p[unit_key] = u = rng.choice(["absolute", "absolute", "per_cap", "per_area"])
        if u != "absolute" or rng.random() < 0.3:
            d[unit_name] = u
        top = {"absolute": 8, "per_cap": 2, "per_area": 3}[u] * (1 if not self.clustered else 4)
        hi = [rng.randint(0, top) for _ in range(N)]
        if kind == "snk" and rng.random() < 0.75 or self.maybe(0.25):
            if rng.random() < 0.3:
                self.put(p, d, kind + "eq", pre + "equals", [hi[0]] * N, hi[0])
            else:
                self.series(p, kind + "eq", pre + "equals", hi)
            return u
        if rng.random() < 0.75:
            if rng.random() < 0.3:
                hi = [hi[0]] * N
                self.put(p, d, kind + "max", pre + "max", hi, hi[0])
            else:
                self.series(p, kind + "max", pre + "max", hi)
        if self.maybe(0.4):
            self.series(p, kind + "min", pre + "min", [rng.randint(0, h) for h in hi])
        return u

    def add(self, p, d):
        t = p["tech"]
        # values are given with the technology if it is at one node only
        same = ("base_tech", "name", "carrier_in", "carrier_out")
        alone = self.rng.random() < 0.5 and self.count[t] == 1
        here = {k: v for k, v in d.items() if k not in same and not alone}
        self.techs.setdefault(t, {k: v for k, v in d.items() if k not in here})
        self.at[p["node"]][t] = here or None
        self.inst.append(p)

    def generate(self):
        rng = self.rng
        plan = []
        for n in self.nodes:
            for c in self.carriers:
                if rng.random() < (0.9 if c == "e" else 0.6) or (n == "a" and c == "e"):
                    plan.append((n, "d" + c, "demand", [c], []))
            for k in range(rng.choice([1, 1, 2])):
                plan.append((n, f"s{k}", "supply", [], ["e"] if k == 0 else [rng.choice(self.carriers)]))
            if rng.random() < 0.55:
                plan.append((n, "b", "storage", ["e"], ["e"]))
            if len(self.carriers) > 1 and rng.random() < 0.7:
                plan.append((n, "v", "conversion", *rng.choice([(["e"], ["h"]), (["e"], ["h"]), (["e", "h"], ["h"]), (["e"], ["e", "h"]), (["h"], ["e"])])))
        fixed = {}
        self.count = {t: sum(x[1] == t for x in plan) for _, t, *_ in plan}
        for n, t, base, cin, cout in plan:
            # the same technology has the same carriers everywhere
            cin, cout = fixed.setdefault(t, (cin, cout))
            p, d = self.fresh(t, base), {"base_tech": base, "name": t}
            p["node"], p["cin"], p["cout"] = n, cin, cout
            one = lambda x: x[0] if len(x) == 1 else x  # noqa: E731
            if cin:
                d["carrier_in"] = one(cin)
            if cout:
                d["carrier_out"] = one(cout)
            self.instance(p, d)
            self.add(p, d)
        if len(self.nodes) == 2:
            for k in range(rng.choice([1, 1, 2])):
                self.link(f"l{k}", rng.choice(self.carriers))
        for t in sorted({p["tech"] for p in self.inst}):
            # whether it is an integer technology is one answer for all nodes
            ps = [p for p in self.inst if p["tech"] == t and p["base"] != "transmission"]
            if len(ps) > 0 and rng.random() < 0.25:
                w = {"tech": t, "max": INF, "min": 0, "umax": INF, "umin": 0}
                if rng.random() < 0.6:
                    self.techs[t]["flow_cap_max_systemwide"] = w["max"] = rng.randint(3, 25)
                if rng.random() < 0.4 and not any(p["int"] for p in ps):
                    self.techs[t]["flow_cap_min_systemwide"] = w["min"] = rng.randint(0, min(6, w["max"]))
                self.wide[t] = w
            if len(ps) > 0 and all(p["int"] for p in ps) and rng.random() < 0.6:
                w = self.wide.setdefault(t, {"tech": t, "max": INF, "min": 0, "umax": INF, "umin": 0})
                if rng.random() < 0.5:
                    self.techs[t]["purchased_units_max_systemwide"] = w["umax"] = rng.randint(1, 4)
                if rng.random() < 0.5:
                    self.techs[t]["purchased_units_min_systemwide"] = w["umin"] = rng.randint(1, 2)

    def instance(self, p, d):
        rng, N = self.rng, self.N
        if p["base"] == "storage":
            p["st"] = True
        if p["base"] in ("supply", "conversion") and rng.random() < 0.25:
            p["st"], d["include_storage"] = True, True
        self.common_params(p, d)
        if p["st"]:
            self.store(p, d)
        u = v = ""
        if p["base"] == "supply":
            u = self.amounts(p, d, "src", "sunit", "source_unit")
            if rng.random() < 0.4:
                if rng.random() < 0.4:
                    self.series(p, "seff", "source_eff", [rng.choice([50, 80, 100]) for _ in range(N)], 0.01)
                else:
                    self.put(p, d, "seff", "source_eff", [80] * N, 0.8)
            if rng.random() < 0.4:
                m = rng.randint(1, 15)
                self.put(p, d, "scmax", "source_cap_max", m, m)
                if self.maybe(0.4):
                    lo = rng.randint(0, m)
                    self.put(p, d, "scmin", "source_cap_min", lo, lo)
            if self.maybe(0.3):
                self.put(p, d, "sceq", "source_cap_equals_flow_cap", True, True)
        if p["base"] == "demand":
            v = self.amounts(p, d, "snk", "kunit", "sink_unit")
        self.area(p, d, "per_area" in (u, v), p["base"] == "demand")
        if p["cout"] and p["base"] in ("supply", "conversion") and rng.random() < 0.3:
            p["cexp"] = [rng.choice(p["cout"])]
            d["carrier_export"] = p["cexp"][0]
            if set(self.res) == {1}:
                if rng.random() < 0.4:
                    v = rng.randint(1, 6)
                    self.put(p, d, "exmax", "export_max", v, v)
        if p["base"] == "storage" and self.milp and rng.random() < 0.4:
            p["async"], d["force_async_flow"] = True, True
        self.costs(p, d)

    def link(self, t, c):
        rng = self.rng
        p, d = self.fresh(t, "transmission"), {"base_tech": "transmission", "name": t, "carrier_in": c, "carrier_out": c, "link_from": "a", "link_to": "b"}
        p["node"], p["cin"], p["cout"] = "a", [c], [c]
        if rng.random() < 0.5:
            v = rng.randint(1, 3)
            self.put(p, d, "dist", "distance", v, v)
        for key, name in (("iepd", "flow_in_eff_per_distance"), ("oepd", "flow_out_eff_per_distance")):
            if rng.random() < 0.4:
                v = rng.choice([80, 90])
                self.put(p, d, key, name, v, v / 100)
        self.common_params(p, d)
        if self.milp and not p["disp"] and rng.random() < 0.3:
            p["async"], d["force_async_flow"] = True, True
        self.costs(p, d)
        one = rng.random() < 0.35
        if one:
            d["one_way"] = True
        if rng.random() < 0.3:
            d["link_from"], d["link_to"] = "b", "a"
        q = {**p, "node": "b"}
        if one:
            src, dst = (p, q) if d["link_from"] == "a" else (q, p)
            src["cout"], dst["cin"] = [], []
            for x, keys in ((src, ["out"]), (dst, ["in"])):
                x["cost"] = {k: {**v, **{y: [0] * self.N for y in keys}} for k, v in x["cost"].items()}
        self.techs[t] = d
        self.inst += [p, q]

    def model(self):
        import calliope
        import pandas as pd

        rng = self.rng
        ts = pd.DatetimeIndex([pd.Timestamp(self.start) + pd.Timedelta(hours=o) for o in self.offsets], name="timesteps")
        tables, dfs = {}, {}
        for name in sorted({k[0] for k in self.table}):
            # links have no node
            for link in (False, True):
                keys = [k for k in self.table if k[0] == name and (k[2] in self.techs and self.techs[k[2]]["base_tech"] == "transmission") == link]
                if keys:
                    cols = ["techs", "costs"] if link else ["nodes", "techs", "costs"]
                    cols = cols[: len(keys[0]) - 1 - link]
                    df = pd.DataFrame({k[1 + link :] if len(cols) > 1 else k[-1]: self.table[k] for k in keys}, index=ts, dtype=float)
                    df.columns.names = cols
                    t = f"t_{name}{link:d}"
                    dfs[t] = df
                    tables[t] = {"table": t, "rows": "timesteps", "columns": cols, "add_dims": {"inputs": name}}
        # every system has a time series
        some = pd.DataFrame({"x": [1.0] * self.N}, index=ts)
        dfs["t_x"], tables["t_x"] = some, {"table": "t_x", "rows": "timesteps", "columns": ["inputs"]}
        init = {"name": "x"}
        if self.milp:
            init["extra_math"] = ["milp"]
        if self.clustered:
            init["time_cluster"] = "rep"
            d0 = pd.Timestamp(self.start)
            day = lambda k: (d0 + pd.Timedelta(days=k - 1)).strftime("%Y-%m-%d")  # noqa: E731
            df = pd.DataFrame({"rep": [day(self.rep[k]) for k in self.rep]}, index=pd.Index([day(k) for k in self.rep], name="datesteps"))
            dfs["t_rep"] = df
            tables["t_rep"] = {"table": "t_rep", "rows": "datesteps", "columns": ["inputs"]}
        nodes = {n: {"techs": self.at[n]} for n in self.nodes}
        for n, x in self.avail.items():
            if x != NONE:
                nodes[n]["available_area"] = x
        self.weights = [self.weighting() for _ in range(3)]
        w = self.weights[0]
        d = {
            "config": {"init": init, "build": {"ensure_feasibility": self.feas}, "solve": {"solver": "cbc" if self.milp else rng.choice(["cbc", "glpk"])}},
            "nodes": nodes, "techs": self.techs, "data_tables": tables,
            "data_definitions": {"objective_cost_weights": {"data": [w[c] for c in self.classes], "index": self.classes, "dims": "costs"}, "bigM": self.bigM},
        }
        self.definition = d
        return calliope.read_dict(d, data_table_dfs=dfs)

    start = "2005-01-01 00:00"

    def weighting(self):
        rng = self.rng
        return {c: rng.choice([1, 1, 2, 0, -1, 3]) for c in self.classes}

    # -- what was reported
    def observe(self, m, weights):
        r, T = m.results, len(self.keep)
        arrays = {}

        def get(name, k=U, **sel):
            """The values over the remaining dimension (timesteps), or a number; 0 where there is none."""
            if name not in arrays:
                arrays[name] = r[name].fillna(0) if name in r else None
            a = arrays[name]
            over = "timesteps" not in sel and name in TIMED
            if a is None or any(d not in a.coords or v not in a.coords[d].values for d, v in sel.items() if d != "none"):
                return [0] * T if over else 0
            a = a.sel(sel)
            return [unit(x, k) for x in a.values.tolist()] if over else unit(a.item(), k)

        TIMED = {"flow_out", "flow_in", "flow_export", "source_use", "storage", "operating_units", "cost_operation_variable", "capacity_factor", "unmet_demand", "unused_supply"}
        insts = []
        for p in self.inst:
            at = {"nodes": p["node"], "techs": p["tech"]}
            o = {"fout": {}, "fin": {}, "fexp": {}, "cf": {}, "cap": {}, "cost": {}}
            for c in self.carriers:
                for key, name in (("fout", "flow_out"), ("fin", "flow_in"), ("fexp", "flow_export"), ("cf", "capacity_factor")):
                    o[key][c] = get(name, **at, carriers=c)
                o["cap"][c] = get("flow_cap", **at, carriers=c)
            o |= {"stor": get("storage", **at), "src": get("source_use", **at), "scap": get("storage_cap", **at), "srccap": get("source_cap", **at), "area": get("area_use", **at)}
            # nothing is said about a size that nothing depends on
            o["said"] = p["area"] and "area_use" in r and bool(r.area_use.sel(at).notnull().item())
            o |= {"units": get("purchased_units", 1, **at), "oper": get("operating_units", 1, **at)}
            for c in self.classes:
                x = {**at, "costs": c}
                o["cost"][c] = {"inv": get("cost_investment", 100 / YEAR, **x), "ann": get("cost_investment_annualised", 100, **x), "fix": get("cost_operation_fixed", 100, **x),
                                "var": get("cost_operation_variable", 100, **x), "total": get("cost", 100, **x)}
            insts.append(o)
        ends = {n: {c: get("unmet_demand", nodes=n, carriers=c) for c in self.carriers} for n in self.nodes}
        over = {n: {c: get("unused_supply", nodes=n, carriers=c) for c in self.carriers} for n in self.nodes}
        techs = sorted({p["tech"] for p in self.inst})
        gen = {t: {c: get("total_generation", techs=t, carriers=c) for c in self.carriers} for t in techs}
        return {"inst": insts, "unmet": ends, "unused": over, "weights": weights, "obj": unit(r.min_cost_optimisation.item(), 100) if "min_cost_optimisation" in r or all(o["said"] for o, p in zip(insts, self.inst) if p["area"]) else 0, "gen": gen}

    def cut(self, x):
        """Only what is left of the timesteps."""
        if isinstance(x, dict):
            return {k: self.cut(v) for k, v in x.items()}
        if isinstance(x, list) and len(x) == self.N and all(isinstance(v, int) for v in x):
            return [x[k] for k in self.keep]
        return x

    def record(self):
        import xarray as xr

        m = self.model()
        m.build()
        if not self.clustered and set(self.w) != {1}:
            w = m.inputs.timestep_weights.copy(deep=True)
            w[:] = self.w
            m.backend.update_input("timestep_weights", w)
        sols, status = [], []
        for k, ws in enumerate(self.weights):
            if k:
                new = xr.DataArray([float(ws[c]) for c in self.classes], coords={"costs": self.classes}, dims="costs")
                m.backend.update_input("objective_cost_weights", new)
            m.solve(force=True)
            status.append(m.runtime.termination_condition)
            if status[-1] == "optimal":
                sols.append(self.observe(m, ws))
        keep = self.keep
        sys = {
            "T": len(keep), "res": [self.res[k] for k in keep], "w": [self.w[k] for k in keep], "day": [self.day[k] for k in keep], "clustered": self.clustered,
            "nodes": self.nodes, "carriers": self.carriers, "feas": self.feas, "bigM": self.bigM, "classes": self.classes, "avail": self.avail,
            "wide": list(self.wide.values()), "inst": [self.cut(p) for p in self.inst],
        }
        return {"id": self.id, "sys": sys, "sols": sols, "status": status}


class Small(Case):
    """A system that can be run in whole quantities in every possible way."""

    def __init__(self, cid, seed):
        self.id, self.kind = cid, "small"
        self.rng = rng = random.Random(str(seed))
        self.clustered, self.milp = False, rng.random() < 0.35
        self.shape = rng.choice(["store", "store", "convert", "link", "two"])
        self.carriers = ["e", "h"] if self.shape == "convert" else ["e"]
        self.nodes = ["a", "b"] if self.shape == "link" else ["a"]
        self.classes = ["c1", "c2"][: rng.choice([1, 1, 2])]
        self.N = 2 if self.shape in ("store", "link") else 3
        self.res = [rng.choice([1, 1, 2])] * self.N
        self.offsets = [sum(self.res[:k]) for k in range(self.N)]
        self.day, self.keep, self.rep = [1] * self.N, list(range(self.N)), {}
        self.w = [rng.choice([1, 2, 3]) for _ in range(self.N)] if rng.random() < 0.4 else [1] * self.N
        self.feas, self.hard, self.bigM, self.allcyclic = rng.random() < 0.7, 0.5, 30, False
        self.inst, self.techs, self.at, self.table = [], {}, {n: {} for n in self.nodes}, {}
        self.wide, self.links = {}, {}
        self.generate()
        self.avail = {n: (rng.randint(1, 3) if any(p["node"] == n and p["area"] for p in self.inst) and rng.random() < 0.5 else NONE) for n in self.nodes}

    def generate(self):
        rng = self.rng
        plan = {
            "store": [("a", "s0", "supply", "", "e"), ("a", "b", "storage", "e", "e"), ("a", "de", "demand", "e", "")],
            "convert": [("a", "s0", "supply", "", "e"), ("a", "v", "conversion", "e", "h"), ("a", "de", "demand", "h", "")],
            "link": [("a", "s0", "supply", "", "e"), ("b", "de", "demand", "e", "")],
            "two": [("a", "s0", "supply", "", "e"), ("a", "s1", "supply", "", "e"), ("a", "de", "demand", "e", "")],
        }[self.shape]
        self.count = {t: 1 for _, t, *_ in plan}
        for n, t, base, cin, cout in plan:
            p, d = self.fresh(t, base), {"base_tech": base, "name": t}
            p["node"], p["cin"], p["cout"] = n, [cin] if cin else [], [cout] if cout else []
            d |= {k: v for k, v in (("carrier_in", cin), ("carrier_out", cout)) if v}
            self.instance(p, d)
            self.add(p, d)
        if self.shape == "link":
            self.link("l0", "e")
        if rng.random() < 0.2:
            self.techs["s0"]["flow_cap_max_systemwide"] = m = rng.randint(1, 2)
            self.wide["s0"] = {"tech": "s0", "max": m, "min": 0, "umax": INF, "umin": 0}

    def common_params(self, p, d):
        rng, N = self.rng, self.N
        if self.milp and p["base"] != "demand" and rng.random() < 0.7:
            p["int"], d["cap_method"] = True, "integer"
            m = rng.randint(1, 2)
            if rng.random() < 0.5:
                self.put(p, d, "fcpu", "flow_cap_per_unit", v := rng.randint(1, 2), v)
            else:
                m = 1
            self.put(p, d, "umax", "purchased_units_max", m, m)
            if rng.random() < 0.2:
                self.put(p, d, "umin", "purchased_units_min", 1, 1)
            if rng.random() < 0.6:
                p["disp"], d["integer_dispatch"] = True, True
        if p["fcpu"] == NONE:
            m = 8 if p["base"] == "demand" else rng.randint(1, 3)
            self.put(p, d, "capmax", "flow_cap_max", m, m)
            if self.maybe(0.3):
                self.put(p, d, "capmin", "flow_cap_min", 1, 1)
        for key, name, has in (("ieff", "flow_in_eff", p["cin"]), ("oeff", "flow_out_eff", p["cout"])):
            if has and rng.random() < 0.3:
                self.put(p, d, key, name, [50] * N, 0.5)
        if p["cout"] and rng.random() < 0.2:
            self.put(p, d, "paras", "flow_out_parasitic_eff", 50, 0.5)
        if p["cout"] and rng.random() < 0.25:
            self.put(p, d, "minrel", "flow_out_min_relative", 50, 0.5)
        if p["base"] != "demand" and rng.random() < 0.2:
            self.put(p, d, "ramp", "flow_ramping", v := rng.choice([50, 100]), v / 100)

    def store(self, p, d):
        rng = self.rng
        m = rng.randint(1, 3)
        self.put(p, d, "stmax", "storage_cap_max", m, m)
        if rng.random() < 0.3:
            self.put(p, d, "stmin", "storage_cap_min", 1, 1)
        if rng.random() < 0.3:
            self.put(p, d, "loss", "storage_loss", 50, 0.5)
        p["cyclic"] = d["cyclic_storage"] = rng.random() < 0.4
        if rng.random() < 0.5:
            self.put(p, d, "init", "storage_initial", v := rng.choice([50, 100]), v / 100)
            p["hasinit"] = True
        if rng.random() < 0.2:
            self.put(p, d, "depth", "storage_discharge_depth", 50, 0.5)
        for key, name in (("fpsmin", "flow_cap_per_storage_cap_min"), ("fpsmax", "flow_cap_per_storage_cap_max")):
            if rng.random() < 0.2:
                self.put(p, d, key, name, v := rng.choice([50, 100] if key == "fpsmin" else [100, 200]), v / 100)

    def instance(self, p, d):
        rng, N = self.rng, self.N
        if self.shape == "two" and p["tech"] == "s1" and rng.random() < 0.4:
            p["st"], d["include_storage"] = True, True
        self.common_params(p, d)
        if p["st"]:
            self.store(p, d)
        unit = "absolute"
        if p["base"] in ("supply", "demand"):
            k, name = ("src", "source") if p["base"] == "supply" else ("snk", "sink")
            unit = p[k[0] + "unit" if k == "src" else "kunit"] = rng.choice(["absolute", "absolute", "per_cap", "per_area"]) if k == "src" else "absolute"
            if unit != "absolute":
                d[f"{name}_unit"] = unit
            top = 3 if unit == "absolute" else 2
            hi = [rng.randint(0, top) for _ in range(N)]
            which = "eq" if k == "snk" and rng.random() < 0.8 or rng.random() < 0.15 else "max"
            if which == "eq" or rng.random() < 0.7:
                self.series(p, k + which, f"{name}_use_" + {"eq": "equals", "max": "max"}[which], hi)
                if which == "max" and rng.random() < 0.2:
                    self.series(p, k + "min", f"{name}_use_min", [rng.randint(0, h) for h in hi])
            if k == "src":
                if rng.random() < 0.2:
                    self.put(p, d, "seff", "source_eff", [50] * N, 0.5)
                if rng.random() < 0.3:
                    self.put(p, d, "scmax", "source_cap_max", m := rng.randint(1, 3), m)
                elif rng.random() < 0.15:
                    self.put(p, d, "sceq", "source_cap_equals_flow_cap", True, True)
        if unit == "per_area" or (p["base"] == "supply" and rng.random() < 0.15):
            p["area"] = True
            self.put(p, d, "amax", "area_use_max", m := rng.randint(1, 2), m)
            if rng.random() < 0.3:
                self.put(p, d, "aper", "area_use_per_flow_cap", v := rng.choice([50, 100]), v / 100)
        if p["base"] in ("supply", "conversion") and rng.random() < 0.2:
            p["cexp"], d["carrier_export"] = p["cout"], p["cout"][0]
            if set(self.res) == {1} and rng.random() < 0.5:
                self.put(p, d, "exmax", "export_max", 1, 1)
        if p["base"] == "storage" and self.milp and rng.random() < 0.3:
            p["async"], d["force_async_flow"] = True, True
        self.costs(p, d)

    def record(self):
        r = super().record()
        sols = iter(r["sols"])
        runs = [{"weights": w, "solved": s == "optimal", "obj": next(sols)["obj"] if s == "optimal" else 0} for w, s in zip(self.weights, r["status"]) if s != "unbounded"]
        return r | {"runs": runs}


def case(arg):
    cid, seed, kind = arg
    try:
        return (Small(cid, seed) if kind == "small" else Case(cid, seed, kind)).record()
    except Exception:
        return {"id": cid, "crash": traceback.format_exc()[-2500:]}


KINDS = ["plain", "plain", "plain", "milp", "cluster"]


def jobs(check, n):
    return [(f"sys-{i}", f"{check.seed}/P17/{i}", KINDS[i % len(KINDS)]) for i in range(n)]


def run(check):
    import calliope  # noqa: F401

    recs = common.pmap(case, jobs(check, check.n(100, 3000)), chunksize=2)
    for r in recs:
        if "crash" in r:
            check.fail(r["id"], ["Crash"], r)
    recs = [r for r in recs if "crash" not in r]
    check.coverage["solved"] = len([1 for r in recs for _ in r["sols"]])
    check.coverage["not solved"] = len([1 for r in recs for s in r["status"]]) - check.coverage["solved"]
    if check.coverage["solved"] < len(recs) // 2:
        raise common.MachineryError(f"only {check.coverage['solved']} solutions from {len(recs)} systems")
    check.judge("Energy", [r for r in recs if r["sols"]])
