"""P01: definition layers resolve by fixed precedence (spec/Layering.tla)."""

from __future__ import annotations

import copy
import random

from harness import common
from harness.trees import Tree, flatten, leaf

EMPTY = str(common.VERIF / "harness/data/empty_math.yaml")
KEYS = ["a", "b", "c"]
FREE = [("nodes", "n1", "techs", "t1"), ("nodes", "n2", "techs", "t1"), ("nodes", "n1", "techs", "t2"),
        ("config", "solve", "solver_options")]
STRS = [("config", "init", "name"), ("config", "init", "datetime_format"), ("config", "build", "objective"),
        ("config", "solve", "solver"), ("config", "build", "operate", "window"), ("config", "init", "time_cluster")]
NULLABLE = {("config", "init", "name"), ("config", "init", "time_cluster")}
OVNAMES = ["alpha", "b2", "zeta", "o1", "o2", "peak", "x9", "low_cost"]
SCNAMES = ["sc_one", "run2", "combi", "all_of_it"]


def rand_free(rng, depth):
    n = rng.choice([1, 1, 2, 2, 3]) if depth > 1 else 1
    return tuple(rng.choice(KEYS) for _ in range(n))


def value(rng, tag):
    k = rng.random()
    if k < 0.6:
        return f"{tag}{rng.randint(0, 99)}"
    if k < 0.75:
        return rng.randint(10, 60)
    if k < 0.85:
        return rng.choice([0.5, 2.25, 1e-7])
    return rng.random() < 0.5


def add_settings(rng, t: Tree, tag, n, prefix=(), nulls=0.1, empties=0.03, only=None):
    done = 0
    for _ in range(n * 4):
        if done >= n:
            break
        kind = rng.random()
        if kind < 0.6:
            base = rng.choice(FREE)
            p = base + rand_free(rng, 3)
            if base[0] == "config" or rng.random() > nulls + empties:
                v = value(rng, tag)
            else:
                v = None if rng.random() < nulls / (nulls + empties) else {}
        elif kind < 0.78:
            p = rng.choice(STRS)
            v = f"{tag}{rng.randint(0, 99)}"
            if p in NULLABLE and rng.random() < 0.15:
                v = None
        elif kind < 0.9:
            p = ("data_definitions", rng.choice(["d_one", "d_two"]))
            v = value(rng, tag)
            if rng.random() < 0.15:
                v = None
        else:
            p = ("techs", rng.choice(["t1", "t2"]), rng.choice(["cap", "eff", "tname"]))
            v = value(rng, tag)
            if rng.random() < 0.15:
                v = None
        if t.put(prefix + p, v):
            done += 1


def skeleton(t: Tree, rng):
    """Every definition needs a `techs` entry at every node it mentions."""
    for n in ("n1", "n2"):
        for tt in ("t1", "t2") if n == "n1" else ("t1",):
            t.put(("nodes", n, "techs", tt, "present"), True)
    t.put(("techs", "t1", "base_tech"), "supply")
    t.put(("techs", "t2", "base_tech"), "demand")


def replace_block(rng, base: Tree, t: Tree, tag, prefix=()):
    """Add a `_REPLACE_` on a block that exists in the base (and is not otherwise set in this layer)."""
    blocks = {p[:k] for p in base.d for k in range(5, len(p)) if p[0] == "nodes"}
    blocks |= {("nodes", "n1", "techs", "t1"), ("nodes", "n1", "techs")}
    b = rng.choice(sorted(blocks))
    if len(b) == 3:
        inner = [("t1", "fresh"), ("t3", "a")]
    else:
        inner = [("fresh",), ("a",), ("b", "c")]
    if any(p[: len(b)] == b for p in (q[len(prefix):] for q in t.d if q[: len(prefix)] == prefix)):
        return
    for k in common.rand_sub(rng, inner, 0.6) or inner[:1]:
        t.put((*prefix, *b, "_REPLACE_", *k), f"{tag}R{rng.randint(0, 99)}")


def make_case(rng):
    base = Tree()
    skeleton(base, rng)
    add_settings(rng, base, "base", rng.randint(3, 9))
    names = rng.sample(OVNAMES, rng.randint(1, 4))
    clashy = rng.random() < 0.15
    ov = {}
    for n in names:
        ov[n] = Tree()
        add_settings(rng, ov[n], n, rng.randint(1, 4))
        if rng.random() < 0.12:
            replace_block(rng, base, ov[n], n)
    if not clashy:
        # keep combined overrides disjoint (what users are told to do)
        seen: list[tuple] = []
        for n in names:
            clean = Tree()
            for p, v in ov[n].d.items():
                q = p[: p.index("_REPLACE_")] if "_REPLACE_" in p else p
                if all(not (s[: len(q)] == q or q[: len(s)] == s) for s in seen):
                    clean.put(p, v)
            seen += [p[: p.index("_REPLACE_")] if "_REPLACE_" in p else p for p in clean.d]
            if not clean.d:
                clean.put(("config", "solve", "solver_options", f"only_{n}"), f"{n}1")
            ov[n] = clean
    if clashy and len(names) > 1 and rng.random() < 0.6:
        # the same leaf in two overrides, whatever the values
        x, y = rng.sample(names, 2)
        p, q = (("nodes", "n1", "techs", "t1", "a"), None) if rng.random() < 0.5 else (rng.choice(sorted(NULLABLE)), f"c{rng.randint(0, 9)}")
        for n in (x, y):
            ov[n].put(p, rng.choice([None, None, q or rng.randint(1, 99), q or 0, q or False]))
    # one override replacing a block in which another one sets (or replaces) something: no rule says what that means
    for n in names:
        for p in [p for p in ov[n].d if "_REPLACE_" in p]:
            b = p[: p.index("_REPLACE_")]
            others = [q for k in names if k != n for q in ov[k].d]
            if any(q[: len(b)] == b or b[: len(q)] == q for q in others):
                del ov[n].d[p]
        if not ov[n].d:
            ov[n].put(("config", "solve", "solver_options", f"only_{n}"), f"{n}1")
    for n in names:
        for p, v in ov[n].d.items():
            base.put(("overrides", n, *p), v)
    lists = []
    scen = {}
    for s in rng.sample(SCNAMES, rng.randint(0, 3)):
        pool = names + list(scen)
        members = rng.sample(pool, rng.randint(1, min(3, len(pool))))
        if rng.random() < 0.06:
            members.append("no_such_override")
        scen[s] = members
        base.put(("scenarios", s), list(members))
        lists.append([leaf(list(members)), list(members)])
    kind = rng.random()
    if kind < 0.12:
        scenario = []
    elif kind < 0.45 and scen:
        scenario = [rng.choice(list(scen))]
    else:
        pool = names + list(scen)
        scenario = rng.sample(pool, len(pool) if clashy else rng.randint(1, min(3, len(pool))))
        if rng.random() < 0.05:
            scenario.append("unheard_of")
    over = Tree()
    if rng.random() < 0.75:
        add_settings(rng, over, "over", rng.randint(1, 5))
        if rng.random() < 0.15:
            replace_block(rng, base, over, "over")
        # also touch what scenario overrides set
        if rng.random() < 0.6:
            cand = [p for n in names for p in ov[n].d if "_REPLACE_" not in p]
            if cand:
                p = rng.choice(cand)
                over.put(p, None if rng.random() < 0.1 and (p[0] != "config" or p in NULLABLE) else "over77")
        if rng.random() < 0.3:
            n = rng.choice(names)
            cand = [p for p in ov[n].d if "_REPLACE_" not in p and p[0] != "config"]
            p = rng.choice(cand) if cand and rng.random() < 0.7 else ("config", "solve", "solver_options", "viaover")
            over.put(("overrides", n, *p), f"edit{rng.randint(0, 99)}")
        if rng.random() < 0.15 and scen:
            s = rng.choice(list(scen))
            over.put(("scenarios", s), [names[0]])
            lists.append([leaf([names[0]]), [names[0]]])
    init = Tree()
    if rng.random() < 0.5:
        for p in rng.sample([("config", "init", "name"), ("config", "init", "datetime_format")], rng.randint(1, 2)):
            init.put(p, f"init{rng.randint(0, 99)}")
    if not (over.d or init.d or scenario):
        scenario = [names[0]]
    return base, over, init, scenario, lists


def defaults():
    from calliope.schemas import CalliopeConfig

    return {tuple(p): v for p, v in flatten(CalliopeConfig().model_dump())}


def execute(arg):
    cid, seed, dfl = arg
    from calliope.attrdict import AttrDict
    from calliope.preprocess.model_definition import prepare_model_definition

    rng = random.Random(seed)
    base, over, init, scenario, lists = make_case(rng)
    dotted = rng.choice([0.0, 0.3])
    b = base.render(rng, dotted)
    if rng.random() < 0.97:  # reading the pre-defined math files dominates the run time; it is not what P01 is about
        AD = {m: EMPTY for m in ("base", "milp", "operate", "spores", "storage_inter_cluster")}
        b.setdefault("config", {}).setdefault("init", {})["math_paths"] = AD
    o = over.render(rng, dotted) if over.d or rng.random() < 0.5 else None
    if rng.random() < 0.3:
        b = AttrDict(b)
        o = AttrDict(o) if o is not None else None
    kw = {p[-1]: v for p, v in init.d.items()}
    scen = ",".join(scenario) if scenario else None
    b0, o0 = copy.deepcopy(b), copy.deepcopy(o)

    def call():
        try:
            attrs = prepare_model_definition(b, scenario=scen, override_dict=o, **kw)
        except Exception as e:
            return {"ok": False, "err": common.err_of(e), "tree": [], "applied": [], "scenario": ""}
        dump = attrs.definition.model_dump()
        conf = [[["config", *p], v] for p, v in flatten(attrs.config.model_dump()) if dfl.get(tuple(p)) != v and p[:2] != ["init", "math_paths"]]
        ap = attrs.runtime.applied_overrides
        return {"ok": True, "err": "", "tree": sorted(flatten(dump) + conf), "applied": ap.split(";") if ap else [],
                "scenario": str(attrs.runtime.scenario)}

    out = call()
    mutated = not (b == b0 and o == o0)
    again = call()
    return {"id": cid, "base": base.json(), "over": over.json(), "init": init.json(), "scenario": scenario,
            "scenariostr": str(scen), "lists": lists, "out": out, "mutated": mutated, "repeatable": again == out}


def make_flat_case(rng):
    """A definition the whole package accepts: numbers only, used through the public entry points."""
    def settings(t, tag0, n, prefix=()):
        for _ in range(n):
            p = rng.choice([("nodes", "n1", "techs", "s", "a"), ("nodes", "n1", "techs", "s", "b"), ("techs", "s", "a"),
                            ("techs", "d", "b"), ("techs", "s", "c"), ("data_definitions", "a0"),
                            ("config", "solve", "solver_options", rng.choice(KEYS), rng.choice(KEYS)),
                            ("config", "build", "objective"), ("config", "init", "name"), ("config", "solve", "spores", "number")])
            if p[-1] in ("objective", "name"):
                v = f"v{tag0 + rng.randint(0, 9)}"
            else:
                v = tag0 + rng.randint(0, 9)
            t.put((*prefix, *p), v)

    base = Tree()
    for p, v in {("techs", "s", "base_tech"): "supply", ("techs", "s", "carrier_out"): "e",
                 ("techs", "d", "base_tech"): "demand", ("techs", "d", "carrier_in"): "e",
                 ("nodes", "n1", "techs", "s", "z"): 1, ("nodes", "n1", "techs", "d"): None}.items():
        base.put(p, v)
    settings(base, 10, 5)
    for k, n in enumerate(["o1", "peak"]):
        settings(base, 20 + 10 * k, 3, ("overrides", n))
    base.put(("overrides", "peak", "data_definitions", "a1"), 33)
    base.put(("scenarios", "sc_one"), ["peak"])
    lists = [[leaf(["peak"]), ["peak"]]]
    over, init = Tree(), Tree()
    settings(over, 50, rng.randint(0, 4))
    if rng.random() < 0.6:
        init.put(("config", "init", "name"), f"init{rng.randint(0, 9)}")
    if rng.random() < 0.3:
        init.put(("config", "init", "distance_unit"), "m")
    scenario = rng.choice([[], ["o1"], ["peak"], ["sc_one"], ["o1", "sc_one"]])
    return base, over, init, scenario, lists


def execute_model(arg):
    """The same question asked through calliope.read_dict / read_yaml."""
    cid, seed, dfl = arg
    import calliope
    from harness import tiny

    rng = random.Random(seed)
    base, over, init, scenario, lists = make_flat_case(rng)
    b = base.render(rng, 0.2)
    m = tiny.math(parameters={k: {"default": 0} for k in ("a", "b", "c", "z", "a0", "a1")})
    d = tiny.definition(m)
    mp = {k: tiny.EMPTY for k in tiny.PREDEFINED} | {"base": d["config"]["init"]["math_paths"]["base"]}
    b.setdefault("config", {}).setdefault("init", {})["math_paths"] = mp
    b.setdefault("data_definitions", {})["q"] = d["data_definitions"]["q"]
    o = over.render(rng, 0.2) if over.d else None
    kw = {p[-1]: v for p, v in init.d.items()}
    scen = ",".join(scenario) if scenario else None
    b0, o0 = copy.deepcopy(b), copy.deepcopy(o)
    path = tiny.write(b, "model") if rng.random() < 0.5 else None

    def call():
        try:
            if path:
                model = calliope.read_yaml(path, scenario=scen, override_dict=o, **kw)
            else:
                model = calliope.read_dict(b, scenario=scen, override_dict=o, **kw)
        except Exception as e:
            return {"ok": False, "err": common.err_of(e), "tree": [], "applied": [], "scenario": ""}
        dump = model.definition.model_dump()
        dump.get("data_definitions", {}).pop("q", None)
        conf = [[["config", *p], v] for p, v in flatten(model.config.model_dump())
                if dfl.get(tuple(p)) != v and p[:2] != ["init", "math_paths"]]
        ap = model.runtime.applied_overrides
        return {"ok": True, "err": "", "tree": sorted(flatten(dump) + conf), "applied": ap.split(";") if ap else [],
                "scenario": str(model.runtime.scenario)}

    out = call()
    mutated = not (b == b0 and o == o0)
    again = call()
    return {"id": cid, "base": base.json(), "over": over.json(), "init": init.json(), "scenario": scenario,
            "scenariostr": str(scen), "lists": lists, "out": out, "mutated": mutated, "repeatable": again == out}


def run(check):
    common.model_check("TreeLaws", "TreeLawsBig.cfg" if check.thorough() else "TreeLaws.cfg")
    dfl = defaults()
    n = check.n(2000, 20000)
    recs = common.pmap(execute, [(f"def-{i}", f"{check.seed}/P01/{i}", dfl) for i in range(n)], chunksize=20)
    recs += common.pmap(execute_model, [(f"model-{i}", f"{check.seed}/P01m/{i}", dfl) for i in range(check.n(80, 600))])
    check.judge("Layering", recs)
    check.coverage["accepted"] = sum(r["out"]["ok"] for r in recs)
    check.coverage["with_scenario"] = sum(bool(r["scenario"]) for r in recs)
    check.coverage["distinct"] = len({str(r["out"]["tree"]) for r in recs})
    check.assumptions += ["`_REPLACE_` is only used on blocks that exist in the base definition",
                          "where the order of structural conflicts matters (value nested under a value) either rejection or priority result is accepted"]
