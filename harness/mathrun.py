"""Building generated math with the real backends and recording what came out (for spec/Math.tla)."""

from __future__ import annotations

import copy
import random

from harness import common, mathgen
from harness.mathgen import TRUE

FREE = {"kind": "variables", "name": "free", "foreach": [], "where": TRUE, "lb": ["n", -10, 1], "ub": ["n", 10, 1], "domain": "real", "default": mathgen.NAN}
FALLBACK = {"kind": "objectives", "name": "obj", "foreach": [], "where": TRUE, "sub_expressions": {}, "slices": {}, "sense": "min", "default": mathgen.NAN,
            "equations": [{"where": TRUE, "expression": ["ref", "free"]}]}


def plan(rng, focus, world):
    """A list of generator calls; components are generated as the model grows (references to earlier ones)."""
    kinds = {
        "where": ["variables"] * 7 + ["global_expressions"] * 2 + ["constraints"] * 3,
        "expr": ["variables"] * 4 + ["global_expressions"] * 3 + ["constraints"] * 4,
        "helper": ["variables"] * 4 + ["global_expressions"] * 3 + ["constraints"] * 4,
    }[focus]
    return kinds


def case(arg):
    cid, seed, focus, be = arg
    import calliope

    rng = random.Random(seed)
    world = mathgen.World(rng, focus)
    gen = mathgen.Gen(world, rng)
    d = common.scratch("mr")
    model = calliope.read_dict(world.definition({}, build={"backend": be, "objective": "obj"}))
    model.build()
    b = model.backend
    comps, refused, errs, foreach, accepted, leaked = [], [], {}, {}, [], []

    def put(c):
        uid = f"u{len(comps)}"
        text = mathgen.component_def(c, rng, world)
        comps.append((c, uid, text))
        foreach[c["name"]] = c["foreach"]
        try:
            mathgen.add(b, c, text)
        except Exception as e:
            refused.append(uid)
            errs[uid] = f"{common.err_of(e)}: {str(e)[:300]}"
            return False
        if c["kind"] != "variables" and mathgen.holds_undefined(b, c):
            # an undefined value inside: the component cannot be used; see that it never reaches a solver
            refused.append(uid)
            errs[uid] = "undefined value in " + c["name"]
            if c["kind"] == "constraints" and handed_over(b, d):
                leaked.append(uid)
            b.delete_component(c["name"], c["kind"])
            return False
        accepted.append((c, text))
        if c["kind"] in ("variables", "global_expressions"):
            gen.built[c["name"]] = [d for d in c["foreach"] if d in b._dataset[c["name"]].dims]
        return True

    put(FREE)
    wd = {"where": 3, "expr": 1, "helper": 1}[focus]
    for kind in plan(rng, focus, world):
        if kind == "variables":
            put(gen.variable(wdepth=wd, simple=0.1 if focus == "where" else 0.5))
        else:
            put(gen.component(kind, helpers=focus == "helper", depth=1 if focus == "where" else 3, wdepth=wd, free="free"))
    o = gen.component("objectives", helpers=focus == "helper", depth=1 if focus == "where" else 3, wdepth=1, free="free")
    o["name"] = "obj"
    o["where"] = TRUE  # objectives have no component-level where
    # an objective that applies somewhere, so that there is a problem to hand over
    if not put(o) or b.objectives["obj"].isnull().all():
        o2 = dict(FALLBACK)
        if o["name"] in b.objectives:
            b.delete_component("obj", "objectives")
            comps = [x for x in comps if x[0] is not o]
            accepted = [x for x in accepted if x[0] is not o]
        put(o2)
    how = "incremental"
    if rng.random() < 0.3:
        # the same accepted components, given as a math definition and built at once
        how = "whole"
        parts = {k: {} for k in mathgen.KINDS}
        for c, text in accepted:
            parts[c["kind"]][c["name"]] = copy.deepcopy(text)
        model = calliope.read_dict(world.definition(parts, build={"backend": be, "objective": "obj"}))
        try:
            model.build()
        except Exception as e:
            return {"id": cid, "crash": f"{common.err_of(e)}: {str(e)[:500]}", "text": [[c["kind"], c["name"], t] for c, _, t in comps]}
        b = model.backend
    m = world.record()
    m["comps"] = [mathgen.spec_component(c, uid) for c, uid, _ in comps]
    m["objective"] = "obj"
    return {"id": cid, "m": mathgen.restrict(m, m["comps"]), "refused": refused, "leaked": leaked, "listed": mathgen.members(b, foreach), "lp": mathgen.lp_of(b, d),
            "how": how, "backend": be, "errors": errs, "text": [[c["kind"], c["name"], t] for c, _, t in comps]}


def handed_over(b, d):
    f = d / "nan.lp"
    try:
        b.to_lp(str(f))
    except Exception:
        return False
    txt = f.read_text()
    f.unlink()
    return "nan" in txt.lower()


def judge(check, recs):
    crashed = [r for r in recs if "crash" in r]
    for r in crashed:
        check.fail(r["id"], ["AcceptedMathBuildsAtOnce"], r)
    recs = [r for r in recs if "crash" not in r]
    ver = common.validate("Math", recs)
    check.traces += len(recs)
    for i, clauses in sorted(ver.items()):
        check.fail(recs[i]["id"], clauses, {"module": "Math", "record": recs[i]})
    for r in recs[:2]:
        check.samples.append(str(r["text"])[:2500])
    return recs


def run(check, focus, quick, thorough):
    import calliope  # noqa: F401

    n = check.n(quick, thorough)
    bes = ["pyomo"] * 5 + (["gurobi"] if have_gurobi() else [])
    jobs = [(f"{focus}-{i}", f"{check.seed}/{focus}/{i}", focus, bes[i % len(bes)]) for i in range(n)]
    recs = judge(check, common.pmap(case, jobs, chunksize=2))
    check.coverage["components"] = sum(len(r["m"]["comps"]) for r in recs)
    check.coverage["refused"] = sum(len(r["refused"]) for r in recs)
    check.coverage["members"] = sum(len(x["ids"]) for r in recs for x in r["listed"])
    check.coverage["rows"] = sum(len(r["lp"]["rows"]) for r in recs)
    return recs


def have_gurobi():
    try:
        import gurobipy

        gurobipy.Model()
        return True
    except Exception:
        return False
