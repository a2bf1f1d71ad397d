"""Driving real backends through the state machine of spec/Registry.tla (P06, P07)."""

from __future__ import annotations

import copy
import json
import math
import random
from fractions import Fraction

from harness import common, mathgen
from harness.mathgen import NAN, TRUE
from harness.mathrun import FREE, have_gurobi

UPDATABLE = ("fn", "ft", "fb", "gn", "gt", "gnt")


class Live:
    """A built model, the components in it, and the record of what was done to it."""

    def __init__(self, cid, seed, be, focus="expr"):
        import calliope

        self.rng = rng = random.Random(seed)
        self.be = be
        self.world = w = mathgen.World(rng, focus)
        self.gen = mathgen.Gen(w, rng)
        self.d = common.scratch("reg")
        self.model = calliope.read_dict(w.definition(
            {"postprocessed": {"pp": {"foreach": ["nodes"], "where": "False", "equations": [{"expression": "k0"}]}}},
            build={"backend": be, "objective": "obj"}, solve={"solver": "cbc" if be == "pyomo" else "gurobi"}))
        self.model.build()
        self.b = self.model.backend
        self.m = copy.deepcopy(w.record())
        self.m["objective"] = "obj"
        self.comps = {}  # name -> component, registered
        self.foreach = {}
        self.steps, self.dropped, self.log = [], [], []
        self.n = 0
        self.stopped = False
        self.cid = cid
        self.solved = "never"
        self.solution = {}

    # -- observing -----------------------------------------------------------
    def refresh(self):
        self.gen.built = {n: [d for d in c["foreach"] if d in self.b._dataset[n].dims]
                          for n, c in self.comps.items() if c["kind"] in ("variables", "global_expressions") and n in self.b._dataset}

    def see(self, inputs=(), bounds=()):
        b = self.b
        o = {"listed": mathgen.members(b, self.foreach), "active": b.objective, "inputs": [], "bounds": [], "haslp": True}
        o["lp"] = mathgen.lp_of(b, self.d)
        for n in inputs:
            if self.world.inputs.get(n, {}).get("kind") == "parameters":
                o["inputs"].append({"name": n, **self.array(b.get_parameter(n, as_backend_objs=False))})
        for n in bounds:
            ds = b.get_variable_bounds(n)
            lo, hi = self.array(ds.lb)["vals"], self.array(ds.ub)["vals"]
            dims = list(ds.lb.dims)
            fe = [d for d in self.foreach[n] if d in dims]
            for i in (x["ids"] for x in o["listed"] if x["name"] == n):
                for ident in i:
                    idx = dict(zip(fe, ident[1:]))
                    k = "|".join(idx[d] for d in dims)
                    f = lambda v, inf: inf if v is None else max(-2e9, min(2e9, round(1000 * mathgen.unnum(v)) if v[0] == "n" else v[1] * 2e9))
                    o["bounds"].append({"id": ident, "lb": int(f(lo.get(k), -2e9)), "ub": int(f(hi.get(k), 2e9))})
        return o

    def array(self, da):
        import numpy as np

        dims = [str(x) for x in da.dims]
        vals = {}
        for pos in np.ndindex(*da.shape):
            v = da.values[pos] if dims else da.item()
            if v is None or (isinstance(v, float) and math.isnan(v)):
                continue
            v = float(v)
            vals["|".join(mathgen.coord(da[x].values[p]) for x, p in zip(dims, pos))] = mathgen.num(v if math.isinf(v) else Fraction(v).limit_denominator(10**6))
        return {"dims": dims if vals else [], "vals": vals}

    def step(self, act, fn, text, inputs=(), bounds=(), keep_err=True):
        out, err = "ok", ""
        try:
            fn()
        except Exception as e:
            out, err = "refused", f"{common.err_of(e)}: {str(e)[:300]}"
        return self.note(act, out, err, text, inputs, bounds)

    def note(self, act, out, err, text, inputs=(), bounds=(), sol=None):
        obs = {"out": out}
        if act["op"] != "solve" and out != "refused" and self.solved == "fresh":
            self.solved = "stale"  # the last solution is not one of this problem
        self.log.append([text, out, err])
        try:
            obs.update(self.see(inputs, bounds if out == "ok" else ()))
        except Exception as e:
            if act["op"] == "input" and out != "ok":
                # an update that cannot be carried out: nothing is promised about the rest
                self.stopped = True
                obs.update({"listed": [], "active": "", "inputs": [], "bounds": [], "haslp": False, "lp": {}})
            else:
                obs.update({"listed": [], "active": "unobservable: " + common.err_of(e) + str(e)[:200], "inputs": [], "bounds": [], "haslp": False, "lp": {}})
                self.stopped = True
        self.steps.append({"act": act, "obs": obs, "sol": sol or []})
        return out == "ok"

    # -- acting --------------------------------------------------------------
    def add(self, c, active=True):
        uid = f"u{self.n}"
        self.n += 1
        text = mathgen.component_def(c, self.rng, self.world)
        if not active:
            text["active"] = False
        sc = mathgen.spec_component(c, uid)
        sc["active"] = active
        act = {"op": "add", "c": sc}
        name, kind = c["name"], c["kind"]
        out, err = "ok", ""
        try:
            mathgen.add(self.b, c, text)
        except Exception as e:
            out, err = "refused", f"{common.err_of(e)}: {str(e)[:300]}"
        if out == "ok" and active:
            if kind != "variables" and mathgen.holds_undefined(self.b, c):
                self.b.delete_component(name, kind)
                out, err = "refused", "undefined value"
        if out == "ok" and active:
            self.comps[name] = c
            self.foreach[name] = c["foreach"]
        elif active:
            self.dropped.append(uid)
        ok = self.note(act, out, err, ["add", kind, name, text])
        self.refresh()
        return ok

    def delete(self, name, kind):
        self.step({"op": "delete", "name": name, "kind": kind}, lambda: self.b.delete_component(name, kind), ["delete", kind, name])
        if name in self.comps and self.comps[name]["kind"] == kind:
            del self.comps[name]
        self.refresh()

    def referenced(self, name):
        return any(f'"{name}"' in json.dumps({k: v for k, v in c.items() if k != "name"}) for c in self.comps.values())

    # -- updates -------------------------------------------------------------
    def values(self, dims, gen, gap=0.3, drop=True):
        """Random values over some coordinates of dims: (spec form, what is passed)."""
        import numpy as np
        import pandas as pd
        import xarray as xr

        rng, w = self.rng, self.world
        coords = {}
        for d in dims:
            its = list(w.dims[d])
            k = rng.choice([len(its), len(its), rng.randint(1, len(its))])
            its = rng.sample(its, k)
            coords[d] = its
        order = list(dims)
        rng.shuffle(order)
        arr = np.empty([len(coords[d]) for d in order], dtype=object)
        vals = {}
        for pos in np.ndindex(*arr.shape):
            if rng.random() < gap and dims:
                arr[pos] = np.nan
                continue
            v = gen()
            arr[pos] = float(v) if isinstance(v, Fraction) else v
            idx = {d: coords[d][p] for d, p in zip(order, pos)}
            vals["|".join(idx[d] for d in dims)] = mathgen.num(v)
        real = {}
        for d in order:
            real[d] = [pd.Timestamp(w.real[d][i]) if d == "timesteps" else w.real[d][i] for i in coords[d]]
        kinds = {type(v) for v in arr.flat if not (isinstance(v, float) and math.isnan(v))}
        if kinds <= {float, int}:
            arr = arr.astype(float)
        elif kinds == {bool} and len(vals) == arr.size:
            arr = arr.astype(bool)
        if not dims:
            v = arr.item()
            return {"dims": [], "vals": vals}, (xr.DataArray(v) if rng.random() < 0.5 else v)
        da = xr.DataArray(arr, dims=order, coords=real)
        if rng.random() < 0.1 and "nodes" in order:
            # an unknown coordinate is of no consequence
            more = da.isel(nodes=[0]).assign_coords(nodes=["zz"])
            da = xr.concat([da, more], dim="nodes")
        mentioned = list(dims)
        for k, d in enumerate(dims):
            # a coordinate that is no dimension (`values.sel(techs="foo")`) says nothing: the values apply to all
            if drop and da.sizes[d] == 1 and rng.random() < 0.3:
                da = da.isel({d: 0})
                vals = {"|".join(x for x, m in zip(key.split("|"), mentioned) if m != d): v for key, v in vals.items()}
                mentioned.remove(d)
        return {"dims": mentioned, "vals": vals}, da

    def update(self, name, dims):
        rng, w = self.rng, self.world
        i = w.inputs[name]
        nothing = bool(self.b.inputs[name].isnull().all())
        if nothing:  # the dimensions that are mentioned are those it gets
            dims = [str(d) for d in self.b.inputs[name].dims]
        if i["bool"]:
            gen = lambda: rng.random() < 0.5
        elif i["kind"] == "lookups":
            gen = lambda: rng.choice(w.dims["bars"])
        elif name == "kinf":
            gen = lambda: rng.choice([1, 2, float("inf")])
        else:
            nums = [n for n in mathgen.NUMS if n[0] > 0] if name == "kn" else mathgen.NUMS
            gen = lambda: Fraction(*rng.choice(nums))
        u, passed = self.values(dims, gen, drop=not nothing)
        text = ["input", name, u, str(getattr(passed, "dims", ()))]
        out, err = "ok", ""
        try:
            self.b.update_input(name, passed)
        except Exception as e:
            out, err = "refused", f"{common.err_of(e)}: {str(e)[:300]}"
        if out == "ok":
            if any(c["kind"] != "variables" and mathgen.holds_undefined(self.b, c) for c in self.comps.values()):
                out, err = "undef", "undefined values"
        self.note({"op": "input", "name": name, **u}, out, err, text, inputs=[name])
        if out != "ok":
            self.stopped = True
            return
        da = self.b.inputs[name]
        i["dims"] = [] if da.isnull().all() else [d for d in i["dims"] if d in da.dims] + [str(d) for d in da.dims if d not in i["dims"]]
        i["vals"].update({})
        self.refresh()

    def bounds(self, name, sides):
        us, kw = [], {}
        c = self.comps.get(name)
        for s in sides:
            dims = self.rng.sample(c["foreach"], self.rng.randint(0, len(c["foreach"]))) if c else []
            lo, hi = (-4, 2) if s == "lb" else (3, 12)
            u, passed = self.values(dims, lambda: Fraction(self.rng.randint(lo, hi)))
            us.append({"side": s, **u})
            kw["min" if s == "lb" else "max"] = passed
        self.step({"op": "bounds", "name": name, "sides": us}, lambda: self.b.update_variable_bounds(name, **kw), ["bounds", name, us],
                  bounds=[name] if c and c["kind"] == "variables" else [])

    def objective(self, name):
        self.step({"op": "objective", "name": name}, lambda: self.b.set_objective(name), ["objective", name])

    def solve(self):
        if self.solved == "fresh":
            self.solved = "stale"
        try:
            self.model.solve(force=True)
        except Exception as e:
            self.note({"op": "solve"}, "failed", common.err_of(e), ["solve"])
            return
        tc = self.model.runtime.termination_condition
        if tc == "optimal":
            self.solved = "fresh"
            self.solution = {n: self.sol(n) for n, c in self.comps.items() if c["kind"] == "variables"}
        self.note({"op": "solve"}, "ok", "", ["solve", tc])

    def sol(self, name):
        a = self.b.get_variable(name, as_backend_objs=False)
        import numpy as np

        fe = [d for d in self.foreach[name] if d in a.dims]
        out = []
        t = a.transpose(*fe)
        for pos in np.ndindex(*t.shape):
            v = t.values[pos] if fe else t.item()
            if v is None or isinstance(v, str) or (isinstance(v, float) and math.isnan(v)):
                continue
            f = Fraction(float(v)).limit_denominator(1000)
            out.append([[name, *[mathgen.coord(t[d].values[p]) for d, p in zip(fe, pos)]], f.numerator, f.denominator])
        return out

    def fix(self, name, undo=False):
        c = self.comps.get(name)
        known = c is not None and c["kind"] == "variables"
        sol = self.solution.get(name, []) if not undo else []
        everything = not known or self.rng.random() < 0.4
        dims = [] if everything else self.rng.sample(c["foreach"], self.rng.randint(0, len(c["foreach"])))
        u, passed = {"dims": [], "vals": {}}, None
        if not everything:
            u, passed = self.values(dims, lambda: True if self.rng.random() < 0.6 else None)
            import xarray as xr

            passed = xr.DataArray(passed)
            passed = passed.astype(float) == 1
            u["vals"] = {k: v for k, v in u["vals"].items() if v == ["b", True]}
        act = {"op": "unfix" if undo else "fix", "name": name, "be": self.be, "solved": self.solved, "all": everything, **u}
        f = getattr(self.b, act["op"] + "_variable")
        out, err = "ok", ""
        try:
            f(name) if passed is None else f(name, where=passed)
        except Exception as e:
            out, err = "refused", f"{common.err_of(e)}: {str(e)[:300]}"
        self.note(act, out, err, [act["op"], name, u, everything], sol=sol)

    def record(self):
        txt = [s["act"]["c"] for s in self.steps if s["act"]["op"] == "add"] + [["ref", s["act"]["name"]] for s in self.steps if "name" in s["act"]]
        return {"id": self.cid, "be": self.be, "m": mathgen.restrict(self.m, txt),
                "taken": sorted(set(self.world.inputs) | set(self.world.dims) | {"pp", "definition_matrix"}), "dropped": self.dropped, "steps": self.steps, "log": self.log}


# --------------------------------------------------------------------------
def plain(text):
    return '["cfg", "objective"]' not in text


def component(g, kind, rng, rich):
    """A random component that does not depend on the choice of objective."""
    while True:
        if kind == "variables":
            c = g.variable(wdepth=1, simple=0.5)
        else:
            c = g.component(kind, depth=rng.choice([1, 2]) if rich else 1, wdepth=1, free="free")
            if kind == "objectives":
                c["where"] = TRUE
        if plain(json.dumps(c)):
            return c


SIMPLE_OBJ = {"kind": "objectives", "name": "obj", "foreach": [], "where": TRUE, "sub_expressions": {}, "slices": {}, "sense": "min", "default": NAN,
              "equations": [{"where": TRUE, "expression": ["ref", "free"]}]}


def judge(check, recs):
    crashed = [r for r in recs if "crash" in r]
    for r in crashed:
        check.fail(r["id"], ["Crash"], r)
    recs = [r for r in recs if "crash" not in r]
    ver = common.validate("Registry", recs)
    check.traces += len(recs)
    for i, clauses in sorted(ver.items()):
        check.fail(recs[i]["id"], clauses, {"module": "Registry", "record": recs[i]})
    for r in recs[:2]:
        check.samples.append(str(r["log"])[:2500])
    import collections

    ops = collections.Counter((s["act"]["op"], s["obs"]["out"]) for r in recs for s in r["steps"])
    check.coverage["steps"] = {f"{a} {b}": n for (a, b), n in sorted(ops.items())}
    return recs
