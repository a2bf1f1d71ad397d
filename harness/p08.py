"""P08: operate mode over windows, horizons and histories (spec/Operate.tla, OperateMC.tla, OperateHist.tla)."""

from __future__ import annotations

import os
import random
import traceback
from pathlib import Path

from harness import common, tiny

BIG = 40


# What the dispatch of these systems needs of the predefined math (the rest only takes time)
KEEP = {
    "constraints": ["flow_out_max", "flow_in_max", "storage_max", "system_balance", "balance_demand", "balance_supply_no_storage",
                    "source_availability_supply", "balance_storage", "balance_transmission"],
    "global_expressions": ["flow_out_inc_eff", "flow_in_inc_eff", "cost_operation_variable", "cost"],
    "objectives": ["min_cost_optimisation"],
    "postprocessed": [],
    "checks": [],
}


def lean(keep=None):
    """Extra math which switches off the predefined math that these systems do not need."""
    import calliope

    base = calliope.io.read_rich_yaml(Path(calliope.__file__).parent / "math" / "base.yaml")
    return {g: {n: {"active": False} for n in base.get(g, {}) if n not in names} for g, names in (keep or KEEP).items()}


def whole(x):
    """An integer, if the number is one; otherwise one that cannot be right."""
    n = round(float(x)) if x == x else -(10**6)
    return n if abs(n - x) < 1e-5 else -(10**6) - 1


class Case:
    def __init__(self, cid, seed):
        self.id, self.err = cid, ""
        self.rng = rng = random.Random(str(seed))
        self.res = res = rng.choice([60, 60, 60, 120, 30])
        n, self.two = rng.randint(3, 9), rng.random() < 0.4
        # some data return to what they were two windows ago
        self.periodic = rng.random() < 0.3
        if self.periodic:
            n, self.two = rng.randint(7, 9), False
        self.n = n
        nn = 2 if self.two else 1
        self.eff = [rng.choice([1, 0.5]) if rng.random() < 0.5 else 1 for _ in range(n)] if rng.random() < 0.4 else None
        self.limit = [[rng.choice([None, None, 8, 10, 14]) for _ in range(n)] if rng.random() < 0.5 else [None] * n for _ in range(nn)]
        top = 4
        cap = [[BIG if x is None else x for x in lim] for lim in self.limit]
        if self.eff:
            cap[0] = [c if x is None else int(c * e) for c, e, x in zip(cap[0], self.eff, self.limit[0])]
        flat = rng.random() < 0.1

        def series(xs):
            return [xs[k % 4] for k in range(n)] if self.periodic and rng.random() < 0.8 else xs

        self.sys = {
            "ts": [k * res for k in range(n)],
            "dem": [series([2 if flat else rng.randint(0, top) for _ in range(n)]) for _ in range(nn)],
            "price": [series([rng.randint(0, 9) for _ in range(n)]) for _ in range(nn)],
            "cap": cap,
            "batcap": [rng.choice([0, 1, 2, 3, 4, 5] if nn == 1 else [0, 1, 2, 3]) for _ in range(nn)],
            "batflow": [rng.randint(1, 3) for _ in range(nn)],
            "init": [], "link": rng.randint(0, 3) if nn == 2 else 0,
        }
        self.sys["init"] = [rng.randint(0, b) for b in self.sys["batcap"]]
        self.start = rng.choice(["2005-01-01 00:00", "2005-02-27 21:00", "2004-12-31 22:30", "2005-07-01 05:00"])
        self.cfgs = [self.config(), self.config(), self.config(short=True)]
        if self.periodic:
            self.cfgs[:2] = [2 * res, rng.choice([2, 3, 4]) * res], [res, res]

    def config(self, short=False):
        rng, res, n = self.rng, self.res, self.n
        # few windows, most of the time: every window costs a solution, if not a build
        few = -(-n // rng.choice([3, 3, 3, 4, 9]))
        w = rng.choice([res * few, res * few, res * rng.randint(few, n), res * few + rng.randint(0, 3) * 30, res * few + rng.randint(0, 3) * 30, res * n, res * (n + rng.randint(1, 3))])
        h = w + rng.choice([0, res, 2 * res, rng.randint(0, 5) * 30, rng.randint(0, 2) * w])
        if short:
            # there are at least two windows and the horizon ends before the next timestep
            w = res * rng.randint(2, max(2, n - 1))
            return [w, w - res * rng.randint(1, w // res - 1)] if w > res else [2 * res, res]
        return [w, h]

    def freq(self, m):
        if m % 1440 == 0 and self.rng.random() < 0.5:
            return f"{m // 1440}D"
        return f"{m // 60}h" if m % 60 == 0 and self.rng.random() < 0.8 else f"{m}min"

    def model(self, prices):
        import calliope
        import pandas as pd

        s, res, rng = self.sys, self.res, self.rng
        nodes = ["a", "b"][: len(s["dem"])]
        hour = 60 / res
        self.times = ts = pd.date_range(self.start, periods=self.n, freq=f"{res}min", name="timesteps")
        techs = {
            "s": {"name": "s", "base_tech": "supply", "carrier_out": "e", "flow_cap": 1000},
            "d": {"name": "d", "base_tech": "demand", "carrier_in": "e", "flow_cap": 1000},
        }
        at = {n: {"techs": {"s": None, "d": None}} for n in nodes}
        table = {}
        for k, n in enumerate(nodes):
            table["sink_use_equals", n, "d"] = s["dem"][k]
            table["cost_flow_out", n, "s"] = s["price"][k]
            if any(x is not None for x in self.limit[k]):
                table["source_use_max", n, "s"] = self.limit[k]
            if s["batcap"][k]:
                t = "w" + n
                techs[t] = {"name": t, "base_tech": "storage", "carrier_out": "e", "carrier_in": "e", "storage_cap": s["batcap"][k],
                            "flow_cap": s["batflow"][k] * hour, "cyclic_storage": False, "storage_initial": s["init"][k] / s["batcap"][k]}
                if s["init"][k] == 0 and rng.random() < 0.5:
                    del techs[t]["storage_initial"]
                at[n]["techs"][t] = None
        if self.eff:
            table["flow_out_eff", "a", "s"] = self.eff
        if s["link"]:
            techs["l"] = {"name": "l", "base_tech": "transmission", "carrier_in": "e", "carrier_out": "e", "link_from": "a", "link_to": "b", "flow_cap": s["link"] * hour}
        tables, dfs = {}, {}
        for p in sorted({k[0] for k in table}):
            df = pd.DataFrame({k[1:]: v for k, v in table.items() if k[0] == p}, index=ts, dtype=float)
            df.columns.names = ["nodes", "techs"]
            dfs["t_" + p] = df
            tables["t_" + p] = {"table": "t_" + p, "rows": "timesteps", "columns": ["nodes", "techs"], "add_dims": {"inputs": p}}
            if p == "cost_flow_out":
                tables["t_" + p]["add_dims"]["costs"] = "monetary"
        init = {"name": "x", "mode": "operate"}
        if rng.random() < 0.95:
            init |= {"extra_math": ["lean"], "math_paths": {"lean": tiny.write(lean(), "lean")}}
        d = {"config": {"init": init, "build": {}, "solve": {"solver": "glpk" if prices else rng.choice(["glpk", "cbc"])}}, "nodes": at, "techs": techs, "data_tables": tables}
        return calliope.read_dict(d, data_table_dfs=dfs)

    def observe(self, m):
        r, s = m.results, self.sys
        nodes = ["a", "b"][: len(s["dem"])]
        t0 = self.times[0]
        o = {"ts": [int((t - t0.to_datetime64()) / 60e9) for t in r.timesteps.values.astype("datetime64[ns]").astype("datetime64[ns]")]}
        if o["ts"] != s["ts"]:
            return o | {"sig": ""}
        pick = lambda v, **k: r[v].sel(**k).transpose("timesteps", ...).squeeze(drop=True).fillna(0).values.tolist()  # noqa: E731
        zero = [0] * self.n
        o["gen"] = [[whole(x) for x in pick("flow_out", nodes=n, techs="s", carriers="e")] for n in nodes]
        o["level"] = [[whole(x) for x in pick("storage", nodes=n, techs="w" + n)] if s["batcap"][k] else zero for k, n in enumerate(nodes)]
        # from b to a
        o["flow"] = [whole(i - x) for i, x in zip(pick("flow_out", nodes="b", techs="l", carriers="e"), pick("flow_in", nodes="b", techs="l", carriers="e"))] if s["link"] else zero
        o["flow"] = [-x for x in o["flow"]]
        o["total"] = [whole(x) for x in r.min_cost_optimisation.transpose("timesteps").values.tolist()]
        sp = r.get("shadow_price_system_balance")
        o["sp"] = [False] * self.n if sp is None else sp.transpose("timesteps", ...).notnull().all([x for x in sp.dims if x != "timesteps"]).values.tolist()
        sig = []
        for v in sorted(r.data_vars):
            if not v.startswith("shadow_price"):
                a = r[v].transpose(*sorted(r[v].dims))
                sig.append(v + str(sorted(a.dims)) + ",".join(common.sig(x) for x in a.values.ravel().tolist()))
        o["sig"] = "|".join(sig)
        return o

    def record(self, hist):
        import calliope

        m, out = self.model(any(h["op"] == "solvesp" for h in hist)), []
        for h in hist:
            st = {"op": h["op"], "cfg": h["cfg"], "ok": True}
            try:
                if h["op"] in ("build", "bad"):
                    w, hz = self.cfgs[h["cfg"] - 1]
                    # a kept window is kept, too, if it is given by name only once
                    m.build(force=True, operate={"window": self.freq(w), "horizon": self.freq(hz)})
                elif h["op"] == "reload":
                    f = str(common.scratch("op") / "m.nc")
                    m.to_netcdf(f)
                    m = calliope.read_netcdf(f)
                    os.remove(f)
                else:
                    m.solve(force=True, shadow_prices=["system_balance"] if h["op"] == "solvesp" else [])
                    st["obs"] = self.observe(m)
            except Exception:
                self.err += h["op"] + " " + traceback.format_exc()[-900:]
                st["ok"] = False
            out.append(st)
            if not st["ok"] and h["op"] != "bad":
                break
        return {"id": self.id, "sys": self.sys, "cfgs": self.cfgs, "hist": out}


def case(arg):
    cid, seed, hist = arg
    try:
        c = Case(cid, seed)
        r = c.record(hist)
        r["err"] = c.err
        return r
    except Exception:
        return {"id": cid, "crash": traceback.format_exc()[-1500:]}


def jobs(check, n):
    out = common.model_check("OperateHist", workers=1)
    hs = [p["hist"] for p in common.tlc_prints(out) if "hist" in p]
    random.Random(check.seed).shuffle(hs)
    return [(f"hist-{i}", f"{check.seed}/P08/{i}", hs[i % len(hs)]) for i in range(n)]


def run(check):
    import calliope  # noqa: F401

    common.model_check("OperateMC")
    recs = common.pmap(case, jobs(check, check.n(48, 800)), chunksize=2)
    for r in recs:
        if "crash" in r:
            raise common.MachineryError(r["crash"])
        r.pop("err")
    check.judge("Operate", recs)
