"""P13: subsetting, resampling and clustering of the time series, over every sequence of initialisations (spec/Time.tla)."""

from __future__ import annotations

import random
import traceback

from harness import common, tiny

SERIES = {"pf": "first", "ps": "sum", "pm": "mean", "pn": "sum", "sl": "first", "bl": "first", "ql": "mean"}
NONE = [0, 0]


def math():
    m = tiny.math(
        dimensions={"datesteps": {"iterator": "datestep", "dtype": "date"}, "clusters": {"iterator": "cluster", "dtype": "integer"}},
        parameters={"pf": {}, "ps": {"resample_method": "sum"}, "pm": {"resample_method": "mean"}, "pn": {"resample_method": "sum"},
                    "ql": {"resample_method": "mean"}, "w": {},
                    "timestep_resolution": {"default": 1, "resample_method": "sum"}, "timestep_weights": {"default": 1, "resample_method": "mean"}},
        lookups={"sl": {"dtype": "string"}, "bl": {"dtype": "bool", "default": False}, "reps": {"dtype": "date"},
                 "timestep_cluster": {"dtype": "float"}, "cluster_first_timestep": {"dtype": "bool"},
                 "lookup_cluster_last_timestep": {"dtype": "datetime"}, "lookup_datestep_cluster": {"dtype": "string"},
                 "lookup_datestep_last_cluster_timestep": {"dtype": "datetime"}, "link_from": {}, "link_to": {}},
    )
    m["dimensions"]["timesteps"]["ordered"] = True
    return m


def pair(v):
    import pandas as pd

    if v is None or (not isinstance(v, str) and pd.isna(v)):
        return NONE
    if isinstance(v, str):
        return [int(v[1:]), 1]
    f = common.frac(float(v), 10**4)
    return f


def minutes(t, epoch):
    import pandas as pd

    return -1 if pd.isna(t) else int((pd.Timestamp(t) - epoch) / pd.Timedelta("1min"))


class Case:
    def __init__(self, cid, seed):
        self.id = cid
        self.rng = random.Random(str(seed))

    def bound(self, t, end):
        """A string for the time t (minutes), with the time span it stands for."""
        import pandas as pd

        rng = self.rng
        ts = self.epoch + pd.Timedelta(minutes=t)
        k = rng.choice(["day", "day", "hour", "minute", "second"])
        if k == "day":
            return str(ts.date()), (t // 1440) * 1440, 1440
        if k == "hour":
            return ts.strftime("%Y-%m-%d %H"), (t // 60) * 60, 60
        return ts.strftime("%Y-%m-%d %H:%M" + (":%S" if k == "second" else "")), t, 1

    def record(self):
        import os

        import calliope
        import pandas as pd

        rng = self.rng
        self.epoch = epoch = pd.Timestamp(rng.choice(["2005-01-01", "2004-02-27", "2019-12-30", "2005-03-26"]))
        step = rng.choice([30, 60, 60, 120, 180, 240, 360])
        days = rng.randint(1, 4)
        start = rng.choice([0, 0, 0, step, 300])
        n = max(1, min((days * 1440 - start) // step, 60))
        ts = [start + step * k for k in range(n)]
        gaps = rng.random() < 0.2
        if gaps and len(ts) > 3:
            ts = sorted(rng.sample(ts, rng.randint(2, len(ts) - 1)))
        ndays = ts[-1] // 1440 + 1
        daylist = list(range(ndays))
        inside = sorted({t // 1440 for t in ts})
        reps0 = rng.sample(inside, rng.randint(1, len(inside)))
        reps = [rng.choice(reps0) for _ in daylist]
        fmt = rng.choice(["ISO8601", "ISO8601", "%d/%m/%Y %H:%M"])
        show = lambda t: (epoch + pd.Timedelta(minutes=t)).strftime("%Y-%m-%d %H:%M:%S" if fmt == "ISO8601" else fmt)  # noqa: E731
        stamps = [show(t) for t in ts]
        data = {}
        series = {}
        for nme, meth in SERIES.items():
            nodal = nme in ("pn", "ql")
            for node in ("a", "b") if nodal else ("",):
                miss = rng.choice([0, 0, 0.3])
                vals = []
                for _ in ts:
                    if nme != "bl" and rng.random() < miss:
                        vals.append(None)
                    elif nme == "sl":
                        vals.append(f"v{rng.randint(1, 9)}")
                    elif nme == "bl":
                        vals.append(rng.random() < 0.5)
                    else:
                        vals.append(rng.choice([0, 1, rng.randint(-9, 30), rng.randint(1, 9) / 2]))
                series[nme + node] = {"method": meth, "vals": [pair(v) for v in vals]}
                if nodal:
                    d = data.setdefault(nme, {"data": [], "index": [], "dims": ["timesteps", "nodes"]})
                    d["data"] += vals
                    d["index"] += [[t, node] for t in stamps]
                else:
                    data[nme] = {"data": vals, "index": stamps, "dims": "timesteps"}
        data["reps"] = {"data": [str((epoch + pd.Timedelta(days=d)).date()) for d in reps], "index": [str((epoch + pd.Timedelta(days=d)).date()) for d in daylist], "dims": "datesteps"}
        # every dimension needs all its times
        hist = []
        lo, hi = ts[0], ts[-1]
        cluster = False
        width0 = 0
        sub0 = None
        cur_step = step
        for k in range(rng.choice([1, 1, 2, 3])):
            h = {"sub": [], "width": 0, "cluster": False}
            cfg = {}
            if rng.random() < 0.5 and not cluster:
                inwin = [t for t in ts if lo <= t <= hi]
                if not inwin:
                    break
                a, b = sorted([rng.choice(inwin), rng.choice(inwin)])
                s1, l1, _ = self.bound(a, False)
                s2, l2, len2 = self.bound(b, True)
                h["sub"] = [l1, l2 + len2]
                cfg["subset"] = {"timesteps": [s1, s2]}
                if cfg["subset"] == sub0:
                    break
                sub0 = cfg["subset"]
                lo, hi = max(lo, l1), min(hi, l2 + len2 - 1)
            if rng.random() < 0.5 and not gaps and not cluster:
                w = rng.choice([x for x in (60, 120, 180, 240, 300, 360, 720, 1440, 90) if x >= cur_step] or [1440])
                if w != width0:
                    h["width"] = width0 = w
                    cfg["resample"] = {"timesteps": f"{w}min" if w % 60 or rng.random() < 0.2 else (f"{w // 60}h" if w != 1440 or rng.random() < 0.5 else "1D")}
                    cur_step = w
                    lo = lo // 1440 * 1440
            if rng.random() < 0.35 and not cluster:
                h["cluster"] = cluster = True
                cfg["time_cluster"] = "reps"
            elif k and not cfg:
                break
            hist.append((h, cfg))
        d = tiny.definition(math(), data=data, init={"datetime_format": fmt, **hist[0][1]},
                            nodes={"a": {"techs": {"s": None, "d": None}}, "b": {"techs": {"d": None}}})
        d["data_definitions"].pop("q")
        out = []
        model = None
        self.err = ""
        self.cfgs = [c for _, c in hist]
        for k, (h, cfg) in enumerate(hist):
            try:
                if k == 0:
                    model = calliope.read_dict(d)
                elif rng.random() < 0.5:
                    f = str(common.scratch("t13") / "m.nc")
                    model.to_netcdf(f)
                    model = calliope.read_netcdf(f, **cfg)
                    os.remove(f)
                else:
                    model = calliope.Model(inputs=model.inputs, attrs=model.all_attrs, **cfg)
                h["obs"] = self.observe(model, series)
            except Exception as e:
                self.err = traceback.format_exc()[-1500:]
                h["obs"] = {"ok": False, "err": type(e).__name__}
            out.append(h)
            if not h["obs"]["ok"]:
                break
        return {"id": self.id, "kind": "time", "orig": {"ts": ts, "days": daylist, "reps": reps, "series": series}, "hist": out}

    def observe(self, model, series):
        ds = model.inputs
        ep = self.epoch
        o = {"ok": True, "ts": [minutes(t, ep) for t in ds.timesteps.values], "series": {}, "cluster": [], "first": [], "last": [], "days": [], "daycluster": [], "daylast": []}
        for n in list(SERIES) + ["timestep_resolution", "timestep_weights"]:
            if n not in ds:
                continue
            for node in ("a", "b") if n in ("pn", "ql") else ("",):
                x = ds[n].sel(nodes=node) if node else ds[n]
                o["series"][n + node] = [pair(v) for v in x.values.tolist()]
        if "timestep_cluster" in ds:
            o["cluster"] = [int(x) for x in ds.timestep_cluster.values]
            o["first"] = [bool(x) for x in ds.cluster_first_timestep.values]
            o["last"] = [minutes(x, ep) for x in ds.lookup_cluster_last_timestep.values]
            o["days"] = [minutes(x, ep) // 1440 for x in ds.datesteps.values]
            o["daycluster"] = [int(float(x)) for x in ds.lookup_datestep_cluster.values]
            o["daylast"] = [minutes(x, ep) for x in ds.lookup_datestep_last_cluster_timestep.values]
        return o

    def dims(self):
        import calliope

        rng = self.rng
        nodes = ["a", "b", "c"][: rng.randint(2, 3)]
        techs = {"s": {"base_tech": "supply", "carrier_out": "e"}, "d": {"base_tech": "demand", "carrier_in": rng.choice(["e", "h"])},
                 "k": {"base_tech": "conversion", "carrier_in": "e", "carrier_out": ["h", "e"]}}
        links = []
        for name in ["l", "m", "o"][: rng.randint(1, 3)]:
            x, y = rng.sample(nodes, 2)
            techs[name] = {"base_tech": "transmission", "carrier_in": rng.choice(["e", ["e", "h"]]), "link_from": x, "link_to": y}
            techs[name]["carrier_out"] = techs[name]["carrier_in"]
            if rng.random() < 0.4:
                techs[name]["one_way"] = True
            links.append(name)
        at = {n: {"techs": {t: {"w": rng.randint(1, 9)} if rng.random() < 0.5 else None for t in ("s", "d", "k") if rng.random() < 0.8}} for n in nodes}
        if rng.random() < 0.5:
            for t in techs:
                techs[t]["w"] = rng.randint(10, 20)
        d = tiny.definition(math(), techs=techs, nodes=at)
        sub = {}
        if rng.random() < 0.7:
            sub["nodes"] = common.rand_sub(rng, nodes, 0.6) or nodes[:1]
        if rng.random() < 0.6 or not sub:
            sub["techs"] = common.rand_sub(rng, list(techs), 0.7) or ["d"]
        for v in sub.values():
            rng.shuffle(v)
        m0 = calliope.read_dict(d)
        # names that are not in the model cannot be selected
        sub = {k: [x for x in v if x in m0.inputs[k].values] for k, v in sub.items()}
        sub = {k: v for k, v in sub.items() if v}
        cells = lambda m: [] if "definition_matrix" not in m.inputs else [list(map(str, k)) for k, v in m.inputs.definition_matrix.transpose("nodes", "techs", "carriers").to_series().items() if v]  # noqa: E731

        def vals(m):
            if "w" not in m.inputs or "definition_matrix" not in m.inputs:
                return []
            x = m.inputs.w
            dm = m.inputs.definition_matrix.any("carriers")
            x = x.where(dm).transpose("nodes", "techs").to_series().dropna()
            return [[str(k[0]), str(k[1]), common.sig(v)] for k, v in x.items()]

        r = {"id": self.id, "kind": "dims", "before": cells(m0), "valsbefore": vals(m0), "links": links, "nodes": sub.get("nodes", []), "techs": sub.get("techs", []),
             "ok": True, "after": [], "nodesafter": [], "techsafter": [], "valsafter": []}
        self.err = ""
        try:
            if rng.random() < 0.3:
                m = calliope.Model(inputs=m0.inputs, attrs=m0.all_attrs, subset=sub)
            else:
                d["config"]["init"]["subset"] = sub
                m = calliope.read_dict(d)
        except Exception:
            r["ok"] = False
            self.err = traceback.format_exc()[-1500:]
        else:
            r.update(after=cells(m), valsafter=vals(m), nodesafter=[str(x) for x in m.inputs.nodes.values], techsafter=[str(x) for x in m.inputs.techs.values])
        return r


def case(arg):
    cid, seed, kind = arg
    try:
        c = Case(cid, seed)
        r = c.record() if kind == "time" else c.dims()
        r["err"] = c.err
        return r
    except Exception:
        return {"id": cid, "crash": traceback.format_exc()[-1500:]}


def run(check):
    import calliope  # noqa: F401

    common.model_check("TimeMC")
    jobs = [(f"time-{i}", f"{check.seed}/P13/{i}", "time") for i in range(check.n(360, 5000))]
    jobs += [(f"dims-{i}", f"{check.seed}/P13d/{i}", "dims") for i in range(check.n(160, 1500))]
    recs = common.pmap(case, jobs, chunksize=4)
    for r in recs:
        if "crash" in r:
            raise common.MachineryError(r["crash"])
        r.pop("err")
    check.judge("Time", recs)
