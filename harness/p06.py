"""P06: components of the optimisation problem can be added and deleted independently of history (spec/Registry.tla, RegistryMC.tla)."""

from __future__ import annotations

import copy
import random

from harness import common, mathgen, registry
from harness.mathgen import NAN, TRUE
from harness.mathrun import FREE, have_gurobi
from harness.registry import SIMPLE_OBJ, Live, component

KIND = list(mathgen.KINDS)


def simple(name, kind, how, rng):
    """A small component of the given kind; `bad`: overlapping alternatives; `missing`: an unknown name."""
    if kind == "variables":
        return {"kind": kind, "name": name, "foreach": rng.choice([[], ["nodes"]]), "where": TRUE, "lb": ["n", rng.randint(-3, 0), 1],
                "ub": ["n", rng.randint(1, 9), 1], "domain": rng.choice(["real", "integer"]), "default": NAN}
    e = ["+", ["*", ["num", rng.randint(1, 4), 1], ["ref", "free"]], ["ref", "nowhere" if how == "missing" else rng.choice(["free", "k0"])]]
    if kind == "constraints":
        e = [rng.choice(["<=", ">=", "=="]), e, ["num", rng.randint(1, 5), 1]]
    eqs = [{"where": TRUE, "expression": e}]
    if how == "bad":
        eqs.append(copy.deepcopy(eqs[0]))
    c = {"kind": kind, "name": name, "foreach": [] if kind == "objectives" else rng.choice([[], ["nodes"]]), "where": TRUE, "sub_expressions": {}, "slices": {},
         "default": NAN, "equations": eqs}
    if kind == "objectives":
        c["sense"] = rng.choice(["min", "max"])
    return c


def tour(arg):
    cid, seed, be, acts = arg
    try:
        x = Live(cid, seed, be)
        x.add(copy.deepcopy(FREE))
        x.add(copy.deepcopy(SIMPLE_OBJ))
        for a in acts:
            if x.stopped:
                break
            if a["op"] == "add":
                x.add(simple(a["name"], a["kind"], a["how"], x.rng), active=a["how"] != "inactive")
            else:
                x.delete(a["name"], a["kind"])
        return x.record()
    except Exception as e:
        import traceback

        return {"id": cid, "crash": traceback.format_exc()[-1500:]}


def walk(arg):
    cid, seed, be = arg
    try:
        x = Live(cid, seed, be, focus="expr")
        rng = x.rng
        x.add(copy.deepcopy(FREE))
        x.add(copy.deepcopy(SIMPLE_OBJ))
        free_names = []  # of deleted components
        for _ in range(rng.randint(10, 16)):
            if x.stopped:
                break
            r = rng.random()
            names = [n for n in x.comps if n != "free"]
            loose = [n for n in names if not x.referenced(n)]
            if r < 0.55:
                c = component(x.gen, rng.choice(["variables"] * 3 + ["global_expressions"] * 3 + ["constraints"] * 3 + ["objectives"]), rng, True)
                q = rng.random()
                if free_names and q < 0.5:
                    c["name"] = rng.choice(free_names)
                elif q < 0.62:
                    c["name"] = rng.choice(names + ["nodes", "k0", "fn", "pp"])
                elif q < 0.66 and c["kind"] != "variables":
                    c = simple(c["name"], c["kind"], rng.choice(["bad", "missing"]), rng)
                active = rng.random() > 0.06
                if x.add(c, active=active) and c["name"] in free_names and active:
                    free_names.remove(c["name"])
            elif r < 0.8 and loose:
                n = rng.choice(loose)
                k = x.comps[n]["kind"] if rng.random() < 0.85 else rng.choice(KIND)
                x.delete(n, k)
                if n not in x.comps:
                    free_names.append(n)
            elif r < 0.84:
                x.delete(rng.choice(["ghost", "k0", "nodes"]), rng.choice(KIND))
            elif r < 0.93:
                # components that are rebuilt are those that are there
                c = [n for n in x.world.inputs if n[0] == "k" and n not in ("kinf", "kx")] + ["fn", "ft"]
                n = rng.choice(c)
                x.update(n, x.world.inputs[n]["dims"])
            else:
                objs = [n for n in names if x.comps[n]["kind"] == "objectives"]
                x.objective(rng.choice(objs + ["ghost"]))
        return x.record()
    except Exception as e:
        import traceback

        return {"id": cid, "crash": traceback.format_exc()[-1500:]}


def run(check):
    import calliope  # noqa: F401

    from harness.walks import Graph

    bes = ["pyomo"] + (["gurobi"] if have_gurobi() else [])
    out = common.model_check("RegistryMC", workers=1)
    edges = common.tlc_prints(out)
    g = Graph(edges, dict(edges[0]["from"]))
    jobs = []
    for be in bes:
        tours = g.tours(check.rng, 30)
        if not check.thorough():
            tours = check.rng.sample(tours, (2 * len(tours)) // 3)
        jobs += [(f"tour-{be}-{i}", f"{check.seed}/tour/{be}/{i}", be, t) for i, t in enumerate(tours)]
    recs = common.pmap(tour, jobs, chunksize=1)
    n = check.n(60, 1200)
    recs += common.pmap(walk, [(f"walk-{i}", f"{check.seed}/P06/{i}", bes[i % len(bes)]) for i in range(n)], chunksize=1)
    registry.judge(check, recs)
    check.coverage["graph_transitions_walked"] = g.n
    check.coverage["backends"] = bes
