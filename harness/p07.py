"""P07: in-place updates of a built problem act like building it from the updated definition (spec/Registry.tla)."""

from __future__ import annotations

import copy

from harness import common, mathgen, registry
from harness.mathgen import NAN, TRUE
from harness.mathrun import FREE, have_gurobi
from harness.registry import SIMPLE_OBJ, UPDATABLE, Live, component

# a well-behaved core, so that most traces contain a problem that can be solved
CAP = {"kind": "constraints", "name": "cap", "foreach": [], "where": TRUE, "sub_expressions": {}, "slices": {}, "default": NAN,
       "equations": [{"where": TRUE, "expression": ["<=", ["ref", "free"], ["num", 7, 1]]}]}


def walk(arg):
    cid, seed, be = arg
    try:
        x = Live(cid, seed, be, focus="expr")
        rng, w = x.rng, x.world
        free = copy.deepcopy(FREE)
        x.add(free)
        x.add(copy.deepcopy(SIMPLE_OBJ))
        for kind in rng.sample(["variables", "variables", "variables", "global_expressions", "global_expressions", "constraints", "constraints", "objectives"], rng.randint(3, 7)):
            x.add(component(x.gen, kind, rng, True))
        numeric = [n for n in w.inputs if n[0] == "k" and n != "kx"]
        for _ in range(rng.randint(7, 13)):
            if x.stopped:
                break
            r = rng.random()
            variables = [n for n, c in x.comps.items() if c["kind"] == "variables"]
            objs = [n for n, c in x.comps.items() if c["kind"] == "objectives"]
            if r < 0.45:
                used = [n for n in numeric + list(UPDATABLE) if x.referenced(n)]
                n = rng.choice(used if used and rng.random() < 0.8 else numeric + [u for u in UPDATABLE if u in w.inputs])
                dims = list(w.inputs[n]["dims"])
                q = rng.random()
                if q < 0.35 and dims:
                    dims = rng.sample(dims, rng.randint(0, len(dims)))
                elif q < 0.45 and n in numeric and not any(["ref", n] in (c["lb"], c["ub"]) for c in x.comps.values() if c["kind"] == "variables"):
                    dims = dims + [d for d in rng.sample(list(w.dims), 1) if d not in dims]
                x.update(n, dims)
            elif r < 0.62:
                n = rng.choice(variables + ["ghost"] * (rng.random() < 0.1) + [m for m in x.comps if m not in variables][:1])
                x.bounds(n, rng.choice([["lb"], ["ub"], ["lb", "ub"]]))
            elif r < 0.7:
                x.objective(rng.choice(objs + ["ghost"]))
            elif r < 0.82:
                x.solve()
                if x.solved == "fresh" and rng.random() < 0.7:
                    x.fix(rng.choice(variables))
            elif r < 0.95:
                x.fix(rng.choice(variables + ["ghost"] * (rng.random() < 0.1)), undo=rng.random() < 0.35)
            else:
                x.add(component(x.gen, rng.choice(["constraints", "variables", "global_expressions"]), rng, True))
        return x.record()
    except Exception:
        import traceback

        return {"id": cid, "crash": traceback.format_exc()[-1500:]}


def run(check):
    import calliope  # noqa: F401

    bes = ["pyomo"] + (["gurobi"] if have_gurobi() else [])
    n = check.n(160, 3000)
    recs = common.pmap(walk, [(f"walk-{i}", f"{check.seed}/P07/{i}", bes[i % len(bes)]) for i in range(n)], chunksize=1)
    registry.judge(check, recs)
    check.coverage["backends"] = bes
