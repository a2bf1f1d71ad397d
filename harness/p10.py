"""P10: saving, reloading and exporting models at every stage (spec/Persist.tla, spec/PersistMC.tla)."""

from __future__ import annotations

import csv
import os
import random
import re
import traceback

from harness import common, tiny

STR = ["x", "yy", "héé ß", "True", "None", "1", "2.50", " lead", "a,b", 'q"q', "# c", "a: b", "~", "null", "-", "1e3", "2005-01-01", "[]", "no"]


def math(rng):
    m = tiny.math(
        dimensions={"g": {"iterator": "gi", "dtype": rng.choice(["integer", "string"])}},
        parameters={"pi": {"default": rng.choice([0, 1, float("inf"), 2.5])}, "pc": {"default": 1}, "p0": {"default": float("nan")},
                    "pg": {"default": 3, "title": rng.choice(STR), "description": rng.choice(STR), "unit": rng.choice(STR)}, "timestep_resolution": {"default": 1, "resample_method": "sum"},
                    "timestep_weights": {"default": 1, "resample_method": "mean"}},
        lookups={"sl": {"dtype": "string"}, "st": {"dtype": "string", "default": "x"}, "bl": {"dtype": "bool", "default": rng.random() < 0.3}, "dl": {"dtype": "datetime"},
                 "ss": {"dtype": "string"}, "b0": {"dtype": "bool", "default": False}},
        variables={"x": {"title": rng.choice(STR), "foreach": ["techs", "timesteps"], "where": "True", "domain": rng.choice(["real", "real", "integer"]),
                         "bounds": {"min": 0, "max": rng.choice(["pi", 50])}, "default": 0},
                   "y": {"foreach": rng.choice([[], ["techs"]]), "bounds": {"min": -5, "max": 50}, "active": True}},
        constraints={"c1": {"foreach": ["techs", "timesteps"], "where": "sl", "equations": [{"where": "st==x", "expression": "x >= q"}, {"where": "NOT st==x", "expression": "x >= 1"}]},
                     "c2": {"foreach": ["techs"], "where": "pc AND NOT sl", "equations": [{"expression": "y >= pc"}]},
                     "c3": {"foreach": ["timesteps"], "where": "dl", "equations": [{"expression": "sum(x, over=techs) >= 2"}]},
                     "c5": {"foreach": ["techs", "timesteps"], "where": rng.choice(["bl", "NOT bl", "bl AND NOT st"]), "equations": [{"expression": "x <= 40"}]},
                     "c4": {"foreach": [], "where": "b0 OR ss", "equations": [{"expression": "sum(x, over=[techs, timesteps]) >= 7"}]}},
        global_expressions={"ge": {"foreach": ["techs", "timesteps"], "where": "NOT sl", "equations": [{"expression": "x + y * 2"}], "default": 0}},
        objectives={"o": {"sense": "minimise", "equations": [{"expression": "sum(x * pc, over=[techs, timesteps]) + " + "Y"}]}},
    )
    m["objectives"]["o"]["equations"][0]["expression"] = "sum(x * pc, over=[techs, timesteps]) + " + ("sum(y, over=techs)" if m["variables"]["y"]["foreach"] else "y")
    return m


def value(rng, depth=0):
    """A value of an attribute."""
    k = rng.choice([*"ssbnifdle", *("tm" if not depth else "")] if depth < 2 else ["s", "b", "n", "i"])
    return {"s": lambda: rng.choice(STR), "b": lambda: rng.random() < 0.5, "n": lambda: None, "i": lambda: rng.randint(-3, 9), "f": lambda: rng.choice([0.5, 1.0, -2.25, 1e-7, float("inf")]),
            "l": lambda: [rng.choice(["a", "b", "None", "True"]) for _ in range(rng.randint(1, 3))],
            "d": lambda: {rng.choice("abc") + str(j): value(rng, depth + 1) for j in range(rng.randint(1, 3))}, "e": lambda: {}, "m": lambda: [], "t": lambda: set(rng.sample(["a", "b", "None"], rng.randint(0, 3)))}[k]()


def values(rng):
    return {k: value(rng) for k in rng.sample(["note", "k1", "k2", "k3", "k4", "k5"], rng.randint(1, 6))}


def tag(v):
    import numpy as np
    import pandas as pd

    if v is None:
        return "none"
    if isinstance(v, bool | np.bool_):
        return f"b:{bool(v)}"
    if isinstance(v, np.datetime64 | pd.Timestamp):
        return "~" if pd.isna(v) else f"t:{pd.Timestamp(v).isoformat()}"
    if isinstance(v, int | np.integer):
        return f"i:{int(v)}"
    if isinstance(v, float | np.floating):
        return f"f:{float(v)!r}"
    return f"{'s' if isinstance(v, str) else type(v).__name__}:{v}"


def flat(v, path=""):
    if isinstance(v, dict) and v:
        for k, x in v.items():
            yield from flat(x, f"{path}.{k}" if path else str(k))
    elif isinstance(v, list | tuple) and len(v):
        for k, x in enumerate(v):
            yield from flat(x, f"{path}[{k}]")
    elif isinstance(v, set) and v:
        for x in v:
            yield f"{path}{{}}", tag(x)
    elif isinstance(v, dict | list | tuple | set):
        yield path, "empty " + next(n for t, n in ((dict, "dict"), (set, "set"), (object, "list")) if isinstance(v, t))
    else:
        yield path, tag(v)


def text(s):
    """One spelling for what a cell of a CSV file says."""
    if s in ("", "nan", "NaT"):
        return "~"
    if s == "~":
        return "tilde"
    if re.fullmatch(r"[+-]?(\d+\.?\d*([eE][+-]?\d+)?|inf)", s):
        return "f:" + common.sig(float(s))
    if re.fullmatch(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d(\.0+)?", s):
        return s[:10] + " " + s[11:19]
    return s + " 00:00:00" if re.fullmatch(r"\d{4}-\d\d-\d\d", s) else s


def index_text(v):
    import numpy as np
    import pandas as pd

    return pd.Timestamp(v).strftime("%Y-%m-%d %H:%M:%S") if isinstance(v, np.datetime64 | pd.Timestamp) else str(v)


def kind(a):
    if a.dtype.kind in "OU":
        import pandas as pd

        ts = sorted({"str" if isinstance(x, str) else type(x).__name__ for x in a.values.ravel().tolist() if not pd.isna(x)})
        return "/".join(ts) or "str"
    return a.dtype.name if a.dtype.kind != "M" else "datetime"


def cells(a):
    import itertools

    import pandas as pd

    dims = sorted(map(str, a.dims))
    a = a.transpose(*dims)
    labels = [[index_text(x) for x in (a[d].values if d in a.coords else range(a.sizes[d]))] for d in dims]
    for at, v in zip(itertools.product(*labels), a.values.ravel().tolist() if a.dtype.kind != "M" else a.values.ravel()):
        miss = v is None or (not isinstance(v, str) and pd.isna(v))
        yield ";".join(f"{d}={x}" for d, x in zip(dims, at)), "~" if miss else tag(v), "~" if miss else text(index_text(v) if a.dtype.kind == "M" else str(v))


def dataset(ds):
    out = [["attr", p, v, ""] for p, v in flat(dict(ds.attrs)) if p]
    for n, a in list(ds.data_vars.items()) + list(ds.coords.items()):
        what = "coord" if n in ds.coords else "array"
        out.append([what, str(n), kind(a), ",".join(sorted(map(str, a.dims)))])
        out += [["attr", f"{n}:{p}", v, ""] for p, v in flat(dict(a.attrs)) if p]
        if what == "coord":
            out += [["item", f"{n}[{k}]", tag(x), ""] for k, x in enumerate(a.values.ravel().tolist() if a.dtype.kind != "M" else a.values.ravel())]
        else:
            out += [["cell", str(n), at, v] for at, v, _ in cells(a)]
    return out


def snapshot(m):
    attrs = [[p, v, "timing" if p.startswith(("runtime.timings", "runtime.termination")) else ""] for p, v in flat(m.dump_all_attrs())]
    rows = []
    for g in ("inputs", "results"):
        for n, a in getattr(m, g).data_vars.items():
            rows += [[g, str(n), at, t] for at, _, t in cells(a)]
    return {"inputs": dataset(m.inputs), "results": dataset(m.results), "attrs": attrs, "csv": rows, "solved": bool(m.is_solved)}


def read_csv_dir(path, m):
    rows = []
    for f in sorted(os.listdir(path)):
        if not f.endswith(".csv"):
            continue
        g, n = f[:-4].split("_", 1)
        ds = getattr(m, g)
        with open(os.path.join(path, f), newline="") as fh:
            lines = list(csv.reader(fh))
        dims = [c for c in lines[0][:-1]]
        for ln in lines[1:]:
            if not ln and n in ds and not ds[n].dims:
                ln = [""]
            at = sorted(zip(dims, [x if not re.fullmatch(r"\d{4}-\d\d-\d\d", x) else x + " 00:00:00" for x in ln[:-1]]))
            rows.append([g, n, ";".join(f"{d}={x}" for d, x in at), text(ln[-1])])
    return rows


class Case:
    def __init__(self, cid, seed):
        self.id = cid
        self.rng = random.Random(str(seed))
        self.err = ""

    def model(self, backend):
        import calliope
        import pandas as pd

        rng = self.rng
        nts = rng.randint(1, 4)
        ts = [str(t) for t in pd.date_range("2005-01-01" if rng.random() < 0.6 else "2005-01-01 22:00", periods=nts, freq="h")]
        techs = ["s", "d", "t"][: rng.randint(2, 3)]
        gap = lambda xs, p=0.5: [x for x in xs if rng.random() > p] or xs[:1]  # noqa: E731
        data = {}

        def put(name, dim, items, val):
            its = gap(items, rng.choice([0, 0.4]))
            data[name] = {"data": [val() for _ in its], "index": its, "dims": dim}

        t1, t2 = rng.choice([("techs", techs), ("timesteps", ts)]), rng.choice([("techs", techs), ("timesteps", ts)])
        put("sl", "techs", techs, lambda: rng.choice(STR))
        put("st", *t1, lambda: rng.choice(["x", "x", rng.choice(STR)]))
        put("bl", *t2, lambda: rng.random() < 0.6)
        put("dl", "timesteps", ts, lambda: rng.choice(["2005-01-01 00:00", "2004-02-29 12:30:00"]))
        put("pi", "techs", techs, lambda: rng.choice([1, 20, 40.5, float("inf")]))
        put("pc", "techs", techs, lambda: rng.choice([1, 2, 0.25]))
        if rng.random() < 0.5:
            gs = [1, 2, 3] if rng.random() < 0.5 else ["a", "b"]
            data["pg"] = {"data": [rng.random() for _ in gs], "index": gs, "dims": "g"}
        for k, v in (("p0", rng.choice([0, -1.5, 10**9])), ("ss", rng.choice(STR)), ("b0", rng.random() < 0.5)):
            if rng.random() < 0.5:
                data[k] = v
        mth = math(rng)
        if "pg" in data:
            mth["dimensions"]["g"]["dtype"] = "integer" if isinstance(data["pg"]["index"][0], int) else "string"
        tt = {"s": {"base_tech": "supply", "carrier_out": "e"}, "d": {"base_tech": "demand", "carrier_in": "e"}, "t": {"base_tech": "storage", "carrier_out": ["e", "f"], "carrier_in": ["e"]}}
        d = tiny.definition(mth, data=data, techs={t: tt[t] for t in techs}, nodes={"a": {"techs": {t: None for t in techs}}, "b": {"techs": {"d": None}}}, nts=nts, start=ts[0])
        cfg = d["config"]
        cfg["init"]["name"] = rng.choice([*STR, None])
        cfg["build"]["objective"] = "o"
        cfg["build"]["ensure_feasibility"] = rng.random() < 0.5
        if rng.random() < 0.4:
            cfg["solve"]["solver_options"] = rng.choice([{}, {"sec": 60}, {"sec": 30}]) if backend == "pyomo" else {"Threads": 1}
        kw = {}
        if rng.random() < 0.4:
            d["overrides"] = {"o1": {"config": {"solve": {"zero_threshold": 1e-9}}}, "o2": {"techs": {"s": {"name": rng.choice(STR)}}}}
            d["scenarios"] = {"sc": ["o1", "o2"]}
            kw["scenario"] = rng.choice(["sc", "o1", "o2", "o1,o2"])
        if rng.random() < 0.3:
            kw["math_dict"] = {"more": {"constraints": {"cx": {"description": rng.choice(STR), "foreach": [], "equations": [{"expression": "sum(x, over=[techs, timesteps]) <= 500"}]}}}}
            cfg["init"]["extra_math"] = ["more"] if rng.random() < 0.7 else []
        if rng.random() < 0.3:
            s = pd.Series([1.0, 2.0][: len(techs)], index=pd.Index(techs[:2], name="techs"), name="p")
            d["data_tables"] = {"tab": {"table": "df", "rows": "techs", "add_dims": {"inputs": "flow_x"}, "rename_dims": {}}}
            mth["parameters"]["flow_x"] = {}
            cfg["init"]["math_paths"]["base"] = tiny.write(mth)
            kw["data_table_dfs"] = {"df": s.to_frame()}
            d["data_tables"]["tab"]["drop"] = None
            d["data_tables"]["tab"].pop("drop")
        for t in techs:
            if rng.random() < 0.3:
                d["techs"][t]["name"] = rng.choice(STR)
        if rng.random() < 0.3:
            cfg["init"]["subset"] = {"timesteps": [ts[0], ts[-1]]}
        self.infeasible = rng.random() < 0.15
        if self.infeasible:
            data["ss"] = "x"
            d["data_definitions"]["ss"] = "x"
            mth["constraints"]["c4"]["equations"][0]["expression"] = "sum(x, over=[techs, timesteps]) <= -7"
            cfg["init"]["math_paths"]["base"] = tiny.write(mth)
        return calliope.read_dict(d, **kw)

    def touch(self, m):
        """Change something in memory that must (not) be in the files."""
        rng = self.rng
        k = rng.choice(["value", "dataset", "array", "result", "config"])
        if k == "value":
            m.inputs["pc"] = m.inputs["pc"] * 2
        elif k == "dataset":
            m.inputs.attrs.update(values(rng))
        elif k == "array":
            n = rng.choice(["pc", "sl", "q", "bl"])
            if n in m.inputs:
                m.inputs[n].attrs.update(values(rng))
        elif k == "result" and "x" in m.results:
            m.results["x"].attrs.update(values(rng))
            m.results.attrs.update(values(rng))
        else:
            m.config = m.config.update({"solve": {"zero_threshold": rng.choice([0, 1e-8, 1e-6])}})

    def record(self, hist):
        import shutil

        import calliope

        rng = self.rng
        box = common.scratch("t10")
        backend = rng.choice(["pyomo", "pyomo", "gurobi"])
        m = self.model(backend)
        models, keys = [], {}

        def idx(mm):
            s = snapshot(mm)
            key = repr(s)
            if key not in keys:
                models.append(s)
                keys[key] = len(models)
            return keys[key]

        dirty = False  # the problem that was built is not that of the model any more
        r = {"id": self.id, "first": idx(m), "steps": []}
        self.hist = hist
        for h in hist:
            st = {"op": h["op"], "file": h["file"], "ok": True, "after": 0, "csv": [], "drop": True, "problem": [], "solved": False, "args": ""}
            r["steps"].append(st)
            try:
                if h["op"] == "build":
                    st["args"] = backend
                    dirty = False
                    m.build(force=True, backend=backend)
                    lp = box / "p.lp"
                    m.backend.to_lp(lp)
                    st["problem"] = [f"{k} {x}" for k, x in enumerate(lp.read_text().splitlines()) if not x.startswith("\\")]
                elif h["op"] == "solve":
                    if not m.is_built or dirty:
                        m.build(force=True, backend=backend)
                    m.solve(force=True, solver="cbc" if backend == "pyomo" else "gurobi")
                elif h["op"] == "touch":
                    self.touch(m)
                    dirty = True
                elif h["op"] == "save":
                    m.to_netcdf(box / f"{h['file']}.nc")
                elif h["op"] == "taint":  # a value that cannot be stored: saving is refused
                    where = rng.choice([m.inputs, m.inputs["pc"], m.inputs["techs"]])
                    where.attrs["note"] = {"a": True}
                    where.attrs["some"] = {"x"}
                    where.attrs["zz"] = [1, 2]
                elif h["op"] == "untaint":
                    for a in (m.inputs, m.inputs["pc"], m.inputs["techs"]):
                        for k in ("note", "some", "zz"):
                            a.attrs.pop(k, None)
                elif h["op"] == "badsave":
                    try:
                        m.to_netcdf(box / (f"{h['file']}.nc" if h["file"] == "h" else "nowhere/h.nc"))
                        st["ok"] = False
                        break
                    except (TypeError, OSError):
                        pass
                elif h["op"] == "load":
                    m = calliope.read_netcdf(box / f"{h['file']}.nc")
                elif h["op"] == "csv":
                    st["drop"] = rng.random() < 0.7
                    m.to_csv(box / "csv", dropna=st["drop"])
                    st["csv"] = read_csv_dir(box / "csv", m)
                    shutil.rmtree(box / "csv")
                st["after"] = idx(m)
                st["solved"] = bool(m.is_solved)
            except Exception:
                self.err = traceback.format_exc()[-2500:]
                st["ok"] = False
                break
        r["models"] = models
        for f in ("f.nc", "g.nc", "h.nc", "p.lp"):
            (box / f).unlink(missing_ok=True)
        return r


def case(arg):
    cid, seed, hist = arg
    c = Case(cid, seed)
    try:
        r = c.record(hist)
        r["err"] = c.err
        return r
    except Exception:
        return {"id": cid, "crash": traceback.format_exc()[-1500:]}


END = [{"op": o, "file": f} for o, f in (("save", "g"), ("build", "-"), ("solve", "-"), ("save", "f"), ("load", "g"), ("build", "-"), ("solve", "-"), ("load", "f"))]


BAD = [{"op": o, "file": f} for o, f in (("taint", "-"), ("badsave", "h"), ("untaint", "-"), ("badsave", "-"))]


def histories():
    out = common.model_check("PersistMC", workers=1)
    return [p["hist"] for p in common.tlc_prints(out) if "hist" in p]


def jobs(check, n):
    hs = histories()
    order = random.Random(check.seed)
    ks = list(range(len(hs)))
    order.shuffle(ks)
    return [(f"hist-{i}", f"{check.seed}/P10/{i}", hs[ks[i % len(hs)]] + (BAD if order.random() < 0.3 else []) + END) for i in range(n)]


def run(check):
    import calliope  # noqa: F401

    recs = common.pmap(case, jobs(check, check.n(200, 1500)), chunksize=4)
    for r in recs:
        if "crash" in r:
            raise common.MachineryError(r["crash"])
        r.pop("err")
    check.judge("Persist", recs)
