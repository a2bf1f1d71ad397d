"""From definitions and tables to model inputs: generates cases, loads them, records what was built (spec/Inputs.tla)."""

from __future__ import annotations

import copy
import itertools
import random
import traceback

from harness import common, tiny

# name -> (group of declared array, own dimensions, kind of value)
PARAMS = {
    "p0": ("parameters", [], "float"),
    "p1": ("parameters", [], "float"),
    "pg": ("parameters", ["g"], "float"),
    "ph": ("parameters", ["g"], "float"),
    "pgy": ("parameters", ["g", "y"], "float"),
    "b0": ("lookups", [], "bool"),
    "bg": ("lookups", ["g"], "bool"),
    "s0": ("lookups", [], "string"),
    "sg": ("lookups", ["g"], "string"),
}
OWN = {"g": ["g1", "g2", "g3"], "y": ["1", "2"]}
NODES = ["a", "b", "c"]
CARR = ["e", "h", "x"]


def math():
    m = tiny.math(
        dimensions={"g": {"iterator": "gg"}, "y": {"iterator": "yy", "dtype": "integer"}, "junk": {"iterator": "jj"}},
        parameters={n: {} for n, (gr, _, k) in PARAMS.items() if gr == "parameters"},
        lookups={n: {"dtype": k, **({"default": False} if k == "bool" else {})} for n, (gr, _, k) in PARAMS.items() if gr == "lookups"},
    )
    m["lookups"]["link_from"] = {"dtype": "string"}
    m["lookups"]["link_to"] = {"dtype": "string"}
    return m


def val(v):
    """Canonical string of a value."""
    import pandas as pd

    if v is None or (not isinstance(v, (str, bool)) and pd.isna(v)):
        return "~"
    if isinstance(v, str):
        return v
    if type(v).__name__ in ("bool", "bool_", "bool"):
        return str(bool(v))
    return common.sig(v)


class Case:
    def __init__(self, cid, seed, focus):
        self.id = cid
        self.rng = random.Random(str(seed))
        self.focus = focus  # tables | yaml
        self.names = []
        self.files = {}

    # ------------------------------------------------------------- values
    def value(self, p, missing=0.0):
        rng = self.rng
        if rng.random() < missing:
            return None
        k = PARAMS[p][2]
        if k == "float":
            return rng.choice([0, 1, 2.5, 4, -3, 100.125, 1e-3, rng.randint(5, 99)])
        if k == "bool":
            return rng.random() < 0.5
        return rng.choice(["u", "v", "w", "zz"])

    def own(self, p):
        """The places along its own dimensions."""
        return list(itertools.product(*[OWN[d] for d in PARAMS[p][1]]))

    def data(self, p, dims, places, top=False):
        """Explicitly indexed data: (yaml, record) over `dims` at `places`."""
        rng = self.rng
        if not dims:
            v = self.value(p, 0.08)
            return v, {"name": p, "dims": [], "cells": [{"at": [], "v": val(v)}]}
        order = list(range(len(dims)))
        rng.shuffle(order)
        places = [pl for pl in places if rng.random() < 0.75] or places[:1]
        rng.shuffle(places)
        if rng.random() < 0.25 and (top or self.broadcast or len(places) == 1):
            v = self.value(p)
            vals = [v] * len(places)
            data = v
        else:
            vals = [self.value(p, 0.1) for _ in places]
            data = vals
        conv = lambda d, x: int(x) if d == "y" else x  # noqa: E731
        idx = [[conv(dims[i], pl[i]) for i in order] for pl in places]
        fits = True
        if top and isinstance(data, list) and len(data) > 2 and rng.random() < self.bad * 3:
            data = data[:-1]
            fits = False
        if not isinstance(data, list) and len(places) > 1 and not self.broadcast:
            fits = False
        y = {"data": data if not (isinstance(data, list) and len(data) == 1 and rng.random() < 0.5) else data[0],
             "index": idx, "dims": [dims[i] for i in order]}
        if len(dims) == 1:
            if rng.random() < 0.7:
                y["index"] = [i[0] for i in idx]
                if len(y["index"]) == 1 and rng.random() < 0.5:
                    y["index"] = y["index"][0]
            if rng.random() < 0.5:
                y["dims"] = dims[0]
        rec = {"name": p, "dims": list(dims), "cells": [{"at": list(pl), "v": val(v)} for pl, v in zip(places, vals)]}
        self.fits = fits
        return y, rec

    # ------------------------------------------------------------- definition
    def build(self):
        rng = self.rng
        self.bad = 0.01
        self.fits = True
        self.broadcast = rng.random() < 0.75
        nn = rng.randint(1, 3)
        nodes = NODES[:nn]
        tnames = ["s", "d", "k", "v"][: rng.randint(1, 4)]
        rng.shuffle(tnames)
        links = ["l", "m"][: rng.randint(0, 2)] if nn > 1 else []
        self.techs, ytechs = [], {}
        self.nodes_, ynodes = [], {}
        intable = {}  # tech -> {lookup: value} to be given by tables
        nodal = [p for p in PARAMS if rng.random() < 0.3]  # given for nodes, others for technologies
        yp = 0.3 if self.focus == "tables" else 0.5
        for t in tnames + links:
            base = "transmission" if t in links else rng.choice(["supply", "demand", "conversion", "storage"])
            x = {"name": t, "active": rng.random() > 0.1, "base": base, "in": [], "out": [], "from": "", "to": "", "oneway": False, "params": []}
            y = {}
            where = {}
            tabled = self.focus == "tables" and rng.random() < 0.3

            def put(k, v):
                (where if tabled and rng.random() < 0.7 else y)[k] = v

            put("base_tech", base)
            if base == "transmission":
                x["from"], x["to"] = rng.sample(nodes, 2)
                put("link_from", x["from"])
                put("link_to", x["to"])
                x["in"] = x["out"] = rng.sample(CARR, rng.choice([1, 1, 2]))
                if rng.random() < 0.4:
                    x["oneway"] = y["one_way"] = True
                elif rng.random() < 0.3:
                    y["one_way"] = False
            else:
                if base in ("demand", "storage", "conversion"):
                    x["in"] = rng.sample(CARR, rng.choice([1, 1, 2]))
                if base in ("supply", "storage", "conversion"):
                    x["out"] = rng.sample(CARR, rng.choice([1, 1, 2]))
            for io in ("in", "out"):
                if x[io]:
                    put("carrier_" + io, x[io] if len(x[io]) > 1 or rng.random() < 0.3 else x[io][0])
            if not x["active"]:
                y["active"] = False
            elif rng.random() < 0.15:
                y["active"] = True
            for p in [p for p in PARAMS if p not in nodal]:
                if rng.random() < yp:
                    y[p], rec = self.data(p, PARAMS[p][1], self.own(p))
                    x["params"].append(rec)
            if where:
                intable[t] = where
            self.techs.append(x)
            ks = list(y)
            rng.shuffle(ks)
            ytechs[t] = {k: y[k] for k in ks}
        for n in nodes:
            x = {"name": n, "active": rng.random() > 0.1, "params": [], "techs": []}
            y = {}
            if not x["active"]:
                y["active"] = False
            for p in nodal:
                if rng.random() < yp:
                    y[p], rec = self.data(p, PARAMS[p][1], self.own(p))
                    x["params"].append(rec)
            yt = {}
            for t in tnames + (links if rng.random() < self.bad else []) + (["ghost"] if rng.random() < self.bad else []):
                if rng.random() < (0.5 if self.focus == "tables" else 0.8):
                    tx = {"name": t, "active": True, "params": [], "rebase": False}
                    ty = {}
                    if rng.random() < 0.5:
                        base = next((z for z in self.techs if z["name"] == t), None)
                        if base and base["active"] and rng.random() < 0.15:
                            tx["active"] = ty["active"] = False
                        if base and base["base"] != "transmission":
                            for io in ("in", "out"):
                                if base[io] and rng.random() < 0.25:
                                    tx[io] = rng.sample(CARR, 1)  # lists of carriers are for `techs` only
                                    ty["carrier_" + io] = tx[io][0]
                        if rng.random() < self.bad:
                            tx["rebase"] = True
                            ty["base_tech"] = "supply"
                        for p in [p for p in PARAMS if p not in nodal]:
                            if rng.random() < yp / 2:
                                ty[p], rec = self.data(p, PARAMS[p][1], self.own(p))
                                tx["params"].append(rec)
                    yt[t] = ty or rng.choice([None, {}])
                    x["techs"].append(tx)
            y["techs"] = yt if yt or rng.random() < 0.5 else None
            self.nodes_.append(x)
            ynodes[n] = y
        self.defs, ydefs = [], {}
        for p in PARAMS:
            if rng.random() < (0.12 if self.focus == "tables" else 0.25):
                core = rng.choice([[], ["nodes"], ["techs"], ["nodes", "techs"]])
                dims = core + PARAMS[p][1]
                items = {"nodes": nodes, "techs": tnames + links, **OWN}
                self.fits = True
                ydefs[p], rec = self.data(p, dims, list(itertools.product(*[items[d] for d in dims])), top=True)
                rec["fits"] = self.fits
                self.defs.append(rec)
        if self.focus == "tables" and nn > 1 and rng.random() < 0.25:
            # a node that only tables know
            x = self.nodes_.pop(rng.randrange(nn))
            del ynodes[x["name"]]
        self.ytechs, self.ynodes, self.ydefs = ytechs, ynodes, ydefs
        # --- tables
        self.tables, self.ytables, self.dfs = [], {}, {}
        nt = rng.choice([1, 2, 2, 3]) if self.focus == "tables" else rng.choice([0, 0, 0, 1])
        items = {"nodes": nodes, "techs": tnames, **OWN}
        anylink = rng.random() < self.bad
        for k in range(nt):
            own = rng.choice([[], [], ["g"], ["g", "y"]])
            ps = [p for p in PARAMS if PARAMS[p][1] == own]
            ps = rng.sample(ps, rng.randint(1, min(3, len(ps))))
            core = rng.choice([["nodes", "techs"], ["nodes", "techs"], ["techs"], ["nodes"], []])
            it = dict(items)
            if core == ["techs"] or anylink:
                it["techs"] = tnames + links
            self.table(f"t{k}", ps, core + own, it)
        if intable:
            # the lookups given by tables: text values by technology, carriers pivoted
            for what in (["base_tech", "link_from", "link_to"],):
                cells = {(t, w): intable[t][w] for t in intable for w in what if w in intable[t]}
                if cells:
                    ps = sorted({w for _, w in cells})
                    self.table("tb", ps, ["techs"], {"techs": sorted({t for t, _ in cells})}, given=lambda p, pl: cells.get((pl[0], p)))
            cells = {}
            for t in intable:
                for w in ("carrier_in", "carrier_out"):
                    if w in intable[t]:
                        for c in (intable[t][w] if isinstance(intable[t][w], list) else [intable[t][w]]):
                            cells[t, c, w] = 1
            if cells:
                self.table("tc", sorted({w for _, _, w in cells}), ["techs", "carriers"],
                           {"techs": sorted({t for t, _, _ in cells}), "carriers": sorted({c for _, c, _ in cells})},
                           given=lambda p, pl: cells.get((pl[0], pl[1], p)))
    def table(self, name, ps, dims, items, given=None):
        rng = self.rng
        items = {d: list(items[d]) for d in dims}
        items["inputs"] = list(ps)
        alld = dims + ["inputs"]
        add, select, drop = [], [], []
        # dimensions that the file leaves out
        for d in list(alld):
            if len(alld) > 1 and d != "y" and rng.random() < (0.25 if given is None else 0.0):
                its = items[d] if d == "inputs" and len(items[d]) == 1 else rng.sample(items[d], rng.randint(1, len(items[d])))
                if d == "inputs" and len(its) > 1 and len({PARAMS[p][2] for p in its}) > 1:
                    continue
                add.append([d, its])
                alld.remove(d)
        if not alld:
            return
        if rng.random() < 0.35:
            alld.append("junk")
            items["junk"] = ["j1", "j2"][: rng.randint(1, 2)]
            drop.append("junk")
            if len(items["junk"]) > 1 and rng.random() > self.bad * 3:
                select.append(["junk", [rng.choice(items["junk"])]])
        for d in alld:
            if d not in ("junk", "y") and given is None and rng.random() < 0.2:
                select.append([d, rng.sample(items[d], rng.randint(1, len(items[d])))])
        rng.shuffle(alld)
        cut = rng.randint(0, len(alld))
        rows, cols = alld[:cut], alld[cut:]
        rk = list(itertools.product(*[items[d] for d in rows]))
        ck = list(itertools.product(*[items[d] for d in cols]))
        if rows and given is None and rng.random() < 0.5:
            rk = [r for r in rk if rng.random() < 0.85] or rk
        rng.shuffle(rk)
        rng.shuffle(ck)
        if rows and rng.random() < self.bad:
            rk.append(rk[0])
        addin = dict((d, its) for d, its in add).get("inputs", [None])[0]

        def cell(r, c):
            lab = dict(zip(rows + cols, r + c))
            p = lab.get("inputs", addin)
            if given is not None:
                return given(p, [lab[d] for d in dims])
            return self.value(p, 0.15)

        vals = [[cell(r, c) for c in ck] for r in rk]
        # axis names in the file
        csv = rng.random() < 0.5
        rename = []
        names = []
        for axis, ds in (("rows", rows), ("cols", cols)):
            # names of dimensions are optional, apart from those that CSV files always hold
            unnamed = (not csv and rng.random() < 0.3) or (csv and axis == "cols" and (len(ds) == 1 or not rows))
            for d in ds:
                n = "" if unnamed else d
                if not unnamed and d != "junk" and rng.random() < 0.15:
                    n = "file_" + d
                    if rng.random() > self.bad * 2:
                        rename.append([n, d])
                names.append(n)
        self.emit(name, rows, cols, names, rk, ck, vals, add, select, drop, rename, csv)

    def emit(self, name, rows, cols, names, rk, ck, vals, add, select, drop, rename, csv):
        """Write the table (in memory or to a file) and refer to it in the definition."""
        import numpy as np
        import pandas as pd

        rng = self.rng
        conv = lambda d, x: int(x) if d == "y" else x  # noqa: E731
        R = [tuple(conv(d, x) for d, x in zip(rows, r)) for r in rk]
        C = [tuple(conv(d, x) for d, x in zip(cols, c)) for c in ck]

        def index(keys, ds, nm, dummy):
            if not ds:
                return pd.Index([dummy])
            if len(ds) == 1:
                return pd.Index([k[0] for k in keys], name=nm[0] or None)
            return pd.MultiIndex.from_tuples(keys, names=[x or None for x in nm])

        df = pd.DataFrame(vals, index=index(R, rows, names[: len(rows)], 0), columns=index(C, cols, names[len(rows):], "value"), dtype=object)
        df = df.where(df.notnull(), np.nan)
        if rng.random() < 0.6 or csv:
            df = df.infer_objects()
        y = {}
        one = lambda xs: xs[0] if len(xs) == 1 and rng.random() < 0.5 else list(xs)  # noqa: E731
        if rows:
            y["rows"] = one(rows)
        if cols:
            y["columns"] = one(cols)
        if add:
            y["add_dims"] = {d: one(its) for d, its in add}
        if select:
            y["select"] = {d: one([conv(d, x) for x in its]) for d, its in select}
        if drop:
            y["drop"] = one(drop)
        if rename:
            y["rename_dims"] = dict(map(tuple, rename))
        if csv:
            tiny.write({})
            path = f"{tiny._DIR[1]}/{self.id}-{name}.csv".replace(" ", "")
            df.to_csv(path, index=bool(rows))
            y["table"] = path
            self.files[path] = open(path).read()
        else:
            y["table"] = name + "_df"
            self.dfs[name + "_df"] = df
        self.ytables[name] = y
        self.tables.append({"rows": rows, "cols": cols, "names": names,
                            "cells": [{"at": list(r + c), "v": val(vals[a][b])} for a, r in enumerate(rk) for b, c in enumerate(ck)],
                            "select": select, "drop": drop, "add": add, "rename": rename})

    def layout(self, t):
        """A small model whose data come from one table, in a layout of the specification."""
        rng = self.rng
        self.broadcast = False
        self.techs = [{"name": n, "active": True, "base": b, "in": i, "out": o, "from": "", "to": "", "oneway": False, "params": []}
                      for n, b, i, o in (("s", "supply", [], ["e"]), ("d", "demand", ["e"], []))]
        self.ytechs = {"s": {"base_tech": "supply", "carrier_out": "e"}, "d": {"base_tech": "demand", "carrier_in": "e"}}
        tx = [{"name": n, "active": True, "params": [], "rebase": False} for n in ("s", "d")]
        self.nodes_ = [{"name": n, "active": True, "params": [], "techs": tx} for n in ("a", "b")]
        self.ynodes = {n: {"techs": {"s": None, "d": None}} for n in ("a", "b")}
        self.defs, self.ydefs = [], {}
        self.tables, self.ytables, self.dfs = [], {}, {}
        ds = t["rows"] + t["cols"]
        n = len(t["rows"])
        typed = {"True": True, "False": False, "~": None}
        at = {tuple(c["at"]): (typed[c["v"]] if c["v"] in typed else float(c["v"])) for c in t["cells"]}
        rk = sorted({k[:n] for k in at})
        ck = sorted({k[n:] for k in at})
        if rng.random() < 0.6:
            rng.shuffle(rk)
            rng.shuffle(ck)
        csv = rng.random() < 0.5
        names = [("" if csv and k >= n and len(t["cols"]) == 1 else d) for k, d in enumerate(ds)]
        if not csv and rng.random() < 0.3:
            names = [""] * len(ds)
        self.emit("t", t["rows"], t["cols"], names, rk, ck, [[at[r + c] for c in ck] for r in rk], t["add"], t["select"], t["drop"], [], csv)

    # ------------------------------------------------------------- execution
    def record(self):
        import calliope
        import pandas as pd

        if isinstance(self.focus, dict):
            self.layout(self.focus["table"])
        else:
            self.build()
        m = math()
        d = tiny.definition(m, data=None, techs=self.ytechs, nodes=self.ynodes, init={"broadcast_input_data": self.broadcast})
        d["data_definitions"].update(self.ydefs)
        if self.ytables:
            d["data_tables"] = self.ytables
        self.d = d
        given = copy.deepcopy(d)
        frames = {k: (v.copy(deep=True), list(v.index.names), list(v.columns.names)) for k, v in self.dfs.items()}
        obs = {"ok": True, "matrix": [], "flows": [], "nodes": [], "techs": [], "carriers": [], "inputs": {}, "unaltered": True}
        self.err = ""
        try:
            model = calliope.read_dict(d, data_table_dfs=self.dfs or None)
            ds = model.inputs
        except Exception as e:
            self.err = traceback.format_exc()[-1500:]
            obs["ok"] = False
            obs["err"] = type(e).__name__
        else:
            cells = lambda n: [  # noqa: E731
                tuple(map(str, k if isinstance(k, tuple) else (k,))) for k, v in ds[n].transpose("nodes", "techs", "carriers").to_series().items() if v
            ]
            obs["matrix"] = [list(k) for k in cells("definition_matrix")]
            for io in ("in", "out"):
                if "carrier_" + io in ds:
                    x = ds["carrier_" + io]
                    obs["flows"] += [list(k) + [io] for k in cells("carrier_" + io)]
            for dim in ("nodes", "techs", "carriers"):
                obs[dim] = [str(i) for i in ds[dim].values] if dim in ds.dims else []
            for p in list(PARAMS) + ["base_tech"]:
                if p not in ds:
                    continue
                x = ds[p]
                if not x.dims:
                    obs["inputs"][p] = {"dims": [], "vals": {"": val(x.item())}}
                    continue
                vals = {"|".join(map(str, k if isinstance(k, tuple) else (k,))): val(v) for k, v in x.to_series().items()}
                obs["inputs"][p] = {"dims": list(map(str, x.dims)), "vals": {k: v for k, v in vals.items() if v != "~"}}
        try:
            assert d == given
            for k, (v, i, c) in frames.items():
                assert list(self.dfs[k].index.names) == i and list(self.dfs[k].columns.names) == c
                pd.testing.assert_frame_equal(self.dfs[k], v)
            for f, s in self.files.items():
                assert open(f).read() == s
        except AssertionError:
            obs["unaltered"] = False
        return {
            "id": self.id,
            "dims": {"nodes": NODES, "techs": ["s", "d", "k", "v", "l", "m"], "carriers": CARR, **OWN},
            "params": [{"name": p, "bool": PARAMS[p][2] == "bool"} for p in PARAMS],
            "tables": self.tables, "techs": self.techs, "nodes": self.nodes_, "defs": self.defs, "obs": obs,
        }

def case(arg):
    try:
        return Case(*arg).record()
    except Exception:
        return {"id": arg[0], "crash": traceback.format_exc()[-1500:]}


def judge(check, recs):
    for r in [r for r in recs if "crash" in r]:
        raise common.MachineryError(r["crash"])
    check.judge("Inputs", recs)
    check.coverage["accepted"] = sum(r["obs"]["ok"] for r in recs)
    check.coverage["refused"] = sum(not r["obs"]["ok"] for r in recs)
