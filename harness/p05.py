"""P05: the life of a Model object (spec/Lifecycle.tla, LifecycleMC.tla, LifecycleTrace.tla)."""

from __future__ import annotations

import hashlib
import os
import random
from pathlib import Path

from harness import common, tiny
from harness.walks import Graph

A0 = {"call": "-", "force": False, "obj": "-", "be": "-", "ef": "-", "solver": "-", "thr": "-", "sp": "-", "need": 0}
CFG0 = {"obj": "omin", "be": "pyomo", "ef": "ok", "solver": "cbc", "thr": "1e-10", "sp": "none"}
THR = {"1e-10": 1e-10, "1e-3": 1e-3, "nope": "nope"}


def have_gurobi():
    try:
        import gurobipy

        gurobipy.Model()
        return True
    except Exception:
        return False


def math():
    obj = lambda sense, e: {"sense": sense, "equations": [{"expression": e}]}
    return tiny.math(
        parameters={"need": {"default": 3}, "small": {"default": 1e-6}},
        variables={
            "v": {"foreach": ["nodes"], "bounds": {"min": 0, "max": 10}},
            "w": {"foreach": ["nodes"], "bounds": {"min": "small", "max": 10}},
            "u": {"bounds": {"min": 0, "max": float("inf")}},
        },
        global_expressions={"double": {"foreach": ["nodes"], "equations": [{"expression": "v * 2"}]}},
        constraints={
            "c": {"foreach": ["nodes"], "equations": [{"expression": "v >= need"}]},
            "cu": {"equations": [{"expression": "u >= 1"}]},
            # an error half-way through the build
            "half": {"foreach": ["nodes"], "where": "config.ensure_feasibility==True", "equations": [{"expression": "v >= 0"}, {"expression": "v >= 1"}]},
        },
        objectives={
            "omin": obj("minimise", "sum(v, over=nodes) + sum(w, over=nodes)"),
            "omax": obj("maximise", "sum(v, over=nodes) - sum(w, over=nodes)"),
            "ounb": obj("maximise", "u"),
        },
    )


def build_kwargs(a):
    k = {}
    if a["obj"] != "-":
        k["objective"] = a["obj"]
    if a["be"] != "-":
        k["backend"] = a["be"]
    if a["ef"] != "-":
        k["ensure_feasibility"] = a["ef"] == "bad"
    return k


def solve_kwargs(a):
    k = {}
    if a["solver"] != "-":
        k["solver"] = a["solver"]
    if a["thr"] != "-":
        k["zero_threshold"] = THR[a["thr"]]
    if a["sp"] != "-":
        k["shadow_prices"] = ["c"] if a["sp"] == "c" else []
    return k


def lp(model, d):
    if not model.is_built:
        return ""
    f = d / "x.lp"
    try:
        model.backend.to_lp(str(f))
        return hashlib.sha1(f.read_bytes()).hexdigest()
    except Exception as e:
        return common.err_of(e)


def results(model):
    return sorted((k, str(v.dims), str(v.values.tolist())) for k, v in model.results.data_vars.items())


def attrs(model):
    d = model.dump_all_attrs()
    d["runtime"].pop("timings", None)
    return str(d)


def one(values, digits=6):
    s = {common.sig(v, digits) for v in values}
    return s.pop() if len(s) == 1 else "mixed:" + ",".join(sorted(s))


def observe(model, ok, before, d):
    c = model.config
    r = model.results
    be = ""
    if model.is_built:
        be = "gurobi" if "Gurobi" in type(model.backend).__name__ else "pyomo"
    res = results(model)
    after = (attrs(model), res, lp(model, d), model.is_built, model.is_solved)
    thr = {v: k for k, v in THR.items()}.get(c.solve.zero_threshold, common.sig(c.solve.zero_threshold))
    return {
        "ok": ok, "built": model.is_built, "solved": model.is_solved, "term": str(model.runtime.termination_condition), "be": be,
        "cfg": {"obj": c.build.objective, "be": c.build.backend, "ef": "bad" if c.build.ensure_feasibility else "ok",
                "solver": c.solve.solver, "thr": thr, "sp": "c" if list(c.solve.shadow_prices) == ["c"] else "none" if not list(c.solve.shadow_prices) else str(c.solve.shadow_prices)},
        "nvars": len(r.data_vars),
        "v": one(r["v"].values.ravel()) if "v" in r else "absent",
        "w": one(r["w"].values.ravel()) if "w" in r else "absent",
        "sp": one(abs(r["shadow_price_c"].values.ravel())) if "shadow_price_c" in r else "none",
        "same": before is not None and after == before,
        "sameres": before is not None and after[1] == before[1],
    }, after


def execute(arg):
    cid, cfg, acts = arg
    import calliope

    d = common.scratch("p05")
    model = calliope.read_dict(tiny.definition(
        math(), data={"need": 3}, build={"objective": cfg["obj"], "backend": cfg["be"]},
        solve={"solver": cfg["solver"]}, nodes={n: {"techs": {"s": None, "d": None}} for n in "ab"}))
    before = observe(model, True, None, d)[1]
    steps = []
    for a in acts:
        ok, err = True, ""
        try:
            if a["call"] == "build":
                model.build(**({"force": True} if a["force"] else {}), **build_kwargs(a))
            elif a["call"] == "solve":
                model.solve(**({"force": True} if a["force"] else {}), **solve_kwargs(a))
            elif a["call"] == "update":
                model.backend.update_input("need", float(a["need"]))
            elif a["call"] == "objective":
                model.backend.set_objective(a["obj"])
            elif a["call"] in ("reload", "save"):
                f = str(d / "m.nc")
                Path(f).unlink(missing_ok=True)
                model.to_netcdf(f)
                if a["call"] == "reload":
                    model = calliope.read_netcdf(f)
        except Exception as e:
            ok, err = False, common.err_of(e) + ": " + str(e)[:200]
        obs, before = observe(model, ok, before, d)
        steps.append({"act": a, "obs": obs, "err": err})
    import shutil

    shutil.rmtree(d, ignore_errors=True)
    return {"id": cid, "cfg": cfg, "steps": steps}


def random_walk(rng, gurobi, length):
    """Arbitrary calls with arbitrary options (the specification says what each must do)."""
    built = False
    acts = []
    for _ in range(length):
        r = rng.random()
        a = dict(A0)
        if not built or r < 0.3:
            a["call"] = "build"
            a["force"] = rng.random() < (0.7 if built else 0.3)
            a["obj"] = rng.choices(["-", "omin", "omax", "ounb", "nope"], [6, 3, 3, 1, 1])[0]
            a["be"] = rng.choices(["-", "pyomo", "gurobi", "nope"], [6, 3, 3 if gurobi else 0, 1])[0]
            a["ef"] = rng.choices(["-", "bad", "ok"], [6, 1, 3])[0]
        elif r < 0.7:
            a["call"] = "solve"
            a["force"] = rng.random() < 0.7
            a["solver"] = rng.choices(["-", "cbc", "glpk", "nope"], [5, 3, 4, 1])[0]
            a["thr"] = rng.choices(["-", "1e-10", "1e-3", "nope"], [6, 2, 3, 1])[0]
            a["sp"] = rng.choices(["-", "none", "c"], [5, 2, 4])[0]
        elif r < 0.83:
            a["call"] = "update"
            a["need"] = rng.choice([3, 5, 7, 20])
        elif r < 0.89:
            a["call"] = "objective"
            a["obj"] = rng.choice(["omin", "omax", "ounb", "nope"])
        else:
            a["call"] = rng.choice(["reload", "save", "save"])
        # mirror of what is certain about "built", only to keep most walks meaningful
        if a["call"] == "build" and not (a["be"] == "nope" or a["obj"] == "nope" or a["ef"] == "bad"):
            built = True
        if a["call"] == "reload":
            built = False
        acts.append(a)
    return acts


def prune(cfg, acts):
    """Drop the calls that need a built problem where there is none (mirrors Out = "na")."""
    built, ef, obj, out = False, cfg["ef"], cfg["obj"], []
    for a in acts:
        if a["call"] in ("update", "objective") and not built:
            continue
        out.append(a)
        if a["call"] == "build" and not (built and not a["force"]) and a["be"] != "nope":
            obj = a["obj"] if a["obj"] != "-" else obj
            ef = a["ef"] if a["ef"] != "-" else ef
            built = obj != "nope" and ef != "bad"
        if a["call"] == "reload":
            built = False
    return out


def run(check):
    import calliope  # noqa: F401

    gurobi = have_gurobi()
    common.model_check("LifecycleMC")
    out = common.model_check("LifecycleMC", "LifecycleWalk.cfg", workers=1)
    edges = [e for e in common.tlc_prints(out) if e["out"] != "na"]
    init = dict(edges[0]["from"])
    g = Graph(edges, init)
    cases = []
    cfgs = [CFG0, {**CFG0, "solver": "glpk"}] + ([{**CFG0, "be": "gurobi", "solver": "gurobi"}] if gurobi else [])
    for k, cfg in enumerate(cfgs):
        tours = g.tours(check.rng, 24)
        if not check.thorough() and k > 0:
            tours = check.rng.sample(tours, max(1, len(tours) // 5))
        cases += [(f"tour-{k}-{i}", cfg, prune(cfg, t)) for i, t in enumerate(tours)]
    for i in range(check.n(110, 2500)):
        rng = random.Random(f"{check.seed}/P05/{i}")
        cfg = rng.choice(cfgs)
        cases.append((f"walk-{i}", cfg, prune(cfg, random_walk(rng, gurobi, rng.randint(6, 18)))))
    cases.sort(key=lambda c: -len(c[2]))
    recs = common.pmap(execute, cases)
    check.judge("LifecycleTrace", recs, sample=1)
    check.coverage["graph_transitions_walked"] = g.n
    check.coverage["calls"] = sum(len(r["steps"]) for r in recs)
    check.assumptions.append("solvers cbc, glpk" + (", gurobi" if gurobi else "") + " report infeasible/unbounded problems as such")
