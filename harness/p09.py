"""P09: SPORES over systems, algorithms and histories (spec/Spores.tla, SporesMC.tla, SporesHist.tla)."""

from __future__ import annotations

import json
import os
import random
import traceback

from harness import common, p08, tiny

ALGS = ["integer", "integer", "relative_deployment", "evolving_average", "random"]
KEEP = {
    "constraints": ["flow_out_max", "flow_in_max", "system_balance", "balance_demand", "balance_supply_no_storage"],
    "objectives": ["min_cost_optimisation"],
    "postprocessed": [],
    "checks": [],
}


class Case:
    def __init__(self, cid, seed):
        self.id, self.err = cid, ""
        self.rng = rng = random.Random(str(seed))
        self.alg = rng.choice(ALGS)
        self.slack = rng.choice([[0, 1], [1, 4], [1, 2], [1, 1], [1, 4], [1, 2]])
        self.factor = rng.choice([[1, 10], [1, 10], [1, 2], [0, 1]])
        nodes = rng.choice([1, 1, 2])
        self.dem = [rng.randint(2, 8) for _ in range(nodes)]
        self.names, self.slots = [], []
        tracking = rng.random() < 0.5
        sign = {}
        for n in range(nodes):
            ts = rng.sample(["p", "q", "r", "t"], rng.randint(2, 4) if nodes == 1 else rng.randint(2, 3))
            # the last one alone can meet the demand
            for k, t in enumerate(sorted(ts)):
                m = rng.choice([4, 5, 8, 10]) if k < len(ts) - 1 else 10
                self.add(n, t, rng.choice([1, 2, 6]), m, False)
            self.add(n, "d", 0, self.dem[n], True)
        # what the tracking parameter says: by technology, or by node and technology
        self.bynode = rng.random() < 0.5
        self.track = {}
        for n, t in self.names:
            key = (n, t) if self.bynode else t
            sign.setdefault(key, rng.choice([True, True, False, None]))
            if tracking:
                self.track[key] = sign[key]
        self.tracking = tracking and any(v is not None for v in self.track.values())
        for i, (n, t) in enumerate(self.names):
            self.slots[i]["track"] = bool(self.track.get((n, t) if self.bynode else t)) if self.tracking else True

    def add(self, n, t, cost, m, sink):
        self.names.append(("ab"[n], t))
        self.slots.append({"node": n + 1, "cost": cost, "max": m * 80, "track": True, "sink": sink})

    def model(self, mode, solve):
        import calliope
        import pandas as pd

        rng = self.rng
        nodes = ["a", "b"][: len(self.dem)]
        per = lambda x: {"data": x, "index": "monetary", "dims": "costs"}  # noqa: E731
        techs = {t: {"name": t, "base_tech": "demand", "carrier_in": "e"} if t == "d" else
                 {"name": t, "base_tech": "supply", "carrier_out": "e", "cost_depreciation_rate": per(8760)} for t in sorted({t for _, t in self.names})}
        at = {n: {"techs": {}} for n in nodes}
        for (n, t), s in zip(self.names, self.slots):
            at[n]["techs"][t] = {"flow_cap_max": s["max"] // 80}
            if t != "d":
                at[n]["techs"][t]["cost_flow_cap"] = per(s["cost"])
        for key, v in self.track.items():
            if v is not None and self.tracking:
                (at[key[0]]["techs"][key[1]] if self.bynode else techs[key])["trk"] = v
        if self.tracking:
            solve["spores"]["tracking_parameter"] = "trk"
        ts = pd.date_range("2005-01-01", periods=1, freq="h", name="timesteps")
        dem = pd.DataFrame({n: [float(x)] for n, x in zip(nodes, self.dem)}, index=ts)
        dem.columns.name = "nodes"
        init = {"name": "x", "mode": mode, "extra_math": ["lean"], "math_paths": {"lean": tiny.write(p08.lean(KEEP), "lean")}}
        d = {"config": {"init": init, "build": {}, "solve": solve}, "nodes": at, "techs": techs,
             "data_definitions": {"spores_slack": self.slack[0] / self.slack[1]},
             "data_tables": {"dem": {"table": "dem", "rows": "timesteps", "columns": "nodes", "add_dims": {"inputs": "sink_use_equals", "techs": "d"}}}}
        if rng.random() < 0.3 and mode == "spores":
            del d["data_definitions"]
        m = calliope.read_dict(d, data_table_dfs={"dem": dem})
        self.given = "data_definitions" not in d
        return m

    def caps(self, da):
        out = []
        for n, t in self.names:
            x = float(da.sel(nodes=n, techs=t, carriers="e"))
            y = round(x * 80) if x == x else -1
            out.append(y if abs(x * 80 - y) < 1e-3 else -(10**6))
        return out

    def scores(self, da):
        k = 1 if self.alg in ("integer", "random") else 1000
        xs = [float(da.sel(nodes=n, techs=t, carriers="e")) for n, t in self.names]
        return [0 if x != x else round(x * k) for x in xs]

    def observe(self, m, st):
        r = m.results.transpose("spores", ...)
        st["ids"] = [int(x) for x in r.spores.values]
        sel = [r.isel(spores=k) for k in range(len(st["ids"]))]
        st["alts"] = [self.caps(x.flow_cap) for x in sel]
        st["scores"] = [self.scores(x.spores_score_cumulative) for x in sel]
        st["costs"] = [round(float(x.min_cost_optimisation) * 80) for x in sel]

    def record(self, hist):
        import calliope
        import numpy as np

        rng = self.rng
        np.random.seed(rng.randint(0, 10**6))
        base = {"scoring_algorithm": self.alg, "score_threshold_factor": self.factor[0] / self.factor[1]}
        solver = rng.choice(["glpk", "cbc"])
        mult, out, m, since = 1, [], None, 0
        reduced = self.slack[0] / self.slack[1]
        for h in hist:
            st = {"op": h["op"], "n": h["n"], "ok": True, "mult": mult, "ids": [], "alts": [], "scores": [], "costs": [], "files": [], "saved": [], "since": since, "given": []}
            try:
                if h["op"] == "skip":
                    m = self.model("base", {"solver": solver, "spores": base})
                    m.build()
                    m.solve()
                    st["given"] = self.caps(m.results.flow_cap)
                    if rng.random() < 0.5:
                        m = calliope.Model(inputs=m.inputs, results=m.results, attrs=m.all_attrs, mode="spores")
                    else:
                        f = str(common.scratch("sp") / "m.nc")
                        m.to_netcdf(f)
                        m = calliope.read_netcdf(f, mode="spores")
                        os.remove(f)
                    m.build()
                elif m is None:
                    m = self.model("spores", {"solver": solver, "spores": base})
                    m.build()
                if self.given and h["op"] in ("run", "skip"):
                    m.backend.update_input("spores_slack", reduced)
                if h["op"] in ("run", "skip", "continue"):
                    kw = {"number": h["n"], "use_latest_results": h["op"] != "run", "save_per_spore_path": None}
                    first = {"run": 0, "skip": 1, "continue": 1 + (max(out[since - 1]["ids"]) if since else 0)}[h["op"]]
                    if rng.random() < 0.25:
                        kw["save_per_spore_path"] = common.scratch("sp") / f"r{len(os.listdir(common.scratch('sp')))}"
                        st["saved"] = list(range(first, h["n"] + 1))
                    m.solve(force=True, spores=kw)
                    self.observe(m, st)
                    since = len(out) + 1
                    if kw["save_per_spore_path"]:
                        for f in sorted(os.listdir(kw["save_per_spore_path"])):
                            ds = calliope.io.read_netcdf(kw["save_per_spore_path"] / f)["results"]
                            ids = [int(x) for x in ds.spores.values]
                            name = int(f.removeprefix("spore_").removesuffix(".nc"))
                            st["files"].append({"id": name if ids == [name] else -1, "caps": self.caps(ds.flow_cap.isel(spores=0))})
                elif h["op"] == "change":
                    mult = rng.choice([2, 3])
                    m.backend.update_input("cost_flow_cap", m.inputs.cost_flow_cap * mult)
                elif h["op"] == "reload":
                    f = str(common.scratch("sp") / "m.nc")
                    m.to_netcdf(f)
                    m = calliope.read_netcdf(f)
                    os.remove(f)
                    m.build()
                    mult = 1
                    if self.given:
                        m.backend.update_input("spores_slack", reduced)
            except Exception:
                self.err += h["op"] + " " + traceback.format_exc()[-900:]
                st["ok"] = False
            out.append(st)
            if not st["ok"]:
                break
        return {"id": self.id, "sys": {"slots": self.slots, "dem": [80 * x for x in self.dem]}, "slack": self.slack, "factor": self.factor, "alg": self.alg, "hist": out}


def case(arg):
    cid, seed, hist = arg
    try:
        c = Case(cid, seed)
        r = c.record(hist)
        r["err"] = c.err
        return r
    except Exception:
        return {"id": cid, "crash": traceback.format_exc()[-1500:]}


def jobs(check, n):
    out = common.model_check("SporesHist", workers=1)
    hs = sorted((p["hist"] for p in common.tlc_prints(out) if "hist" in p), key=json.dumps)
    random.Random(check.seed).shuffle(hs)
    # half of them with a change, a reload or two continued runs
    rich = [h for h in hs if {"change", "reload"} & {s["op"] for s in h} or sum(s["op"] == "continue" for s in h) > 1]
    return [(f"hist-{i}", f"{check.seed}/P09/{i}", (rich if i % 2 else hs)[i // 2 % len(rich if i % 2 else hs)]) for i in range(n)]


def run(check):
    import calliope  # noqa: F401

    common.model_check("SporesMC")
    recs = common.pmap(case, jobs(check, check.n(48, 1000)), chunksize=2)
    for r in recs:
        if "crash" in r:
            raise common.MachineryError(r["crash"])
        r.pop("err")
    check.judge("Spores", recs)
