"""P02: template inheritance (spec/Templates.tla)."""

from __future__ import annotations

import copy
import random

from harness import common
from harness.p01 import EMPTY, defaults
from harness.trees import Tree, flatten

NAMES = {"F": ["f_one", "f2", "zf", "mid", "f_base"], "N": ["node_std", "n2t", "zz_nodes"], "S": ["cheap", "s_two", "b_s"]}
ERRS = 0.06


def fill_scalars(rng, t, prefix, tag, n, keys=("a", "b", "c")):
    for _ in range(n):
        v = rng.choice([f"{tag}{rng.randint(0, 99)}", rng.randint(0, 99), True, None, 0.5])
        t.put((*prefix, rng.choice(keys)), v)


def fill_block(rng, t, prefix, cat, tag, depth, call_p, pools):
    """Settings of a block of category `cat`; F: free, S: scalars, N: node."""
    before = len(t.d)
    if cat in ("F", "S"):
        fill_scalars(rng, t, prefix, tag, rng.randint(0, 3))
    if cat == "F" and depth > 0:
        for k in ("r", "s"):
            x = rng.random()
            if x < 0.07:
                t.put((*prefix, k), None)
            elif x < 0.2:
                t.put((*prefix, k), {})
            elif x < 0.6:
                fill_block(rng, t, (*prefix, k), "F", tag, depth - 1, call_p * 0.6, pools)
    if cat == "N":
        fill_scalars(rng, t, prefix, tag, rng.randint(0, 2), ("cap", "eff"))
        for tt in common.rand_sub(rng, ["t1", "t2"], 0.6):
            if rng.random() < 0.25:
                t.put((*prefix, "techs", tt), None)
            else:
                fill_block(rng, t, (*prefix, "techs", tt), "F", tag, 1, call_p, pools)
    if rng.random() < call_p and pools.get(cat):
        t.put((*prefix, "template"), rng.choice(pools[cat]))
    if len(t.d) == before:
        t.put(prefix, {})


def make_case(rng):
    t = Tree()
    pools = {c: rng.sample(v, rng.randint(1, len(v))) for c, v in NAMES.items()}
    weird = rng.random()
    order = {c: list(v) for c, v in pools.items()}
    for c in order:
        rng.shuffle(order[c])
    for c in ("F", "S", "N"):
        done = []
        for n in order[c]:
            # inheriting only from templates already made keeps the chains acyclic
            avail = {"F": [x for x in order["F"]] if c == "N" else list(done), "S": list(done), "N": list(done)}
            avail[c] = list(done)
            if weird < ERRS:
                avail = {k: list(v) for k, v in pools.items()}
            elif weird < 2 * ERRS:
                avail[c] = [*done, "not_there"]
            fill_block(rng, t, ("templates", n), c, n, 2, 0.6, avail)
            done.append(n)
    for n in ("n1", "n2", "n3"):
        fill_block(rng, t, ("nodes", n), "N", n, 1, 0.65, pools)
        if not any(p[:3] == ("nodes", n, "techs") for p in t.d):
            if t.d.get(("nodes", n)) == {}:
                del t.d[("nodes", n)]
            t.put(("nodes", n, "techs"), {})
    for tt in ("t1", "t2", "t3"):
        fill_block(rng, t, ("techs", tt), "S", tt, 1, 0.7, pools)
    for k in ("x", "y"):
        if rng.random() < 0.5:
            fill_block(rng, t, ("config", "solve", "solver_options", k), "F", k, 1, 0.6, pools)
    if rng.random() < 0.15:
        t.put(("data_definitions", "dd"), 3)
    return t


def to_json(t):
    return [[e[0], str(t.d[tuple(e[0])]) if e[0][-1] == "template" else e[1]] for e in t.json()]


def execute(arg):
    cid, seed, dfl = arg
    from calliope.preprocess.model_definition import prepare_model_definition

    rng = random.Random(seed)
    t = make_case(rng)
    over = None
    if rng.random() < 0.2:  # part of the definition arrives through the override dictionary
        paths = list(t.d)
        moved = [p for p in paths if p[0] in ("templates", "techs") and rng.random() < 0.3]
        over = Tree({p: t.d[p] for p in moved})

    def call(dotted):
        base = Tree({p: v for p, v in t.d.items() if over is None or p not in over.d})
        b = base.render(rng, dotted)
        o = over.render(rng, 0.0) if over is not None else None
        ms = {m: EMPTY for m in ("base", "milp", "operate", "spores", "storage_inter_cluster")}
        b.setdefault("config", {}).setdefault("init", {})["math_paths"] = ms
        b0 = copy.deepcopy(b)
        try:
            attrs = prepare_model_definition(b, override_dict=o)
        except Exception as e:
            return {"ok": False, "err": common.err_of(e), "tree": []}, b == b0
        conf = [[["config", *p], v] for p, v in flatten(attrs.config.model_dump())
                if dfl.get(tuple(p)) != v and p[:2] != ["init", "math_paths"]]
        return {"ok": True, "err": "", "tree": sorted(flatten(attrs.definition.model_dump()) + conf)}, b == b0

    out, u1 = call(0.0)
    out2, u2 = call(rng.choice([0.0, 0.2]))
    return {"id": cid, "defn": to_json(t), "out": out, "same": out["ok"] == out2["ok"] and out["tree"] == out2["tree"],
            "mutated": not (u1 and u2)}


def run(check):
    common.model_check("TreeLaws", "TreeLawsBig.cfg" if check.thorough() else "TreeLaws.cfg")
    dfl = defaults()
    n = check.n(1500, 20000)
    recs = common.pmap(execute, [(f"tpl-{i}", f"{check.seed}/P02/{i}", dfl) for i in range(n)], chunksize=20)
    check.judge("Templates", recs)
    check.coverage["accepted"] = sum(r["out"]["ok"] for r in recs)
    check.coverage["template_calls"] = sum(e[0][-1] == "template" for r in recs for e in r["defn"])
    check.assumptions += ["a setting is either a value or a block throughout one definition (mixtures are refused by the code)"]
