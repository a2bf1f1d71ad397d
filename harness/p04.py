"""P04: math layer stacking (spec/MathStack.tla)."""

from __future__ import annotations

import copy
import os
import random
from pathlib import Path

from harness import common, tiny
from harness.trees import Tree

KINDS = ["dimensions", "parameters", "lookups", "variables", "global_expressions", "constraints",
         "piecewise_constraints", "objectives", "postprocessed", "checks"]


def canon(v):
    if v is None:
        return "~"
    if isinstance(v, bool):
        return f"b:{v}"
    if isinstance(v, int | float):
        return "n:" + common.sig(v, 12)
    if isinstance(v, dict):
        if not v:
            return "{}"
        v = dict(v)
        if "expression" in v:
            v.setdefault("where", "True")
        return "d:" + ";".join(f"{k}={canon(x)}" for k, x in sorted(v.items()))
    if isinstance(v, list | tuple):
        return "l:[" + ",".join(canon(i) for i in v) + "]"
    return f"s:{v}"


def flat(d, prefix=()):
    """Flatten with dotted keys meaning nested blocks."""
    out = []
    for k, v in d.items():
        p = (*prefix, *str(k).split("."))
        if isinstance(v, dict) and v:
            out += flat(v, p)
        else:
            out.append([list(p), canon(v)])
    return out


_EQ = {"equations": [{"expression": "x == 1"}]}
MINIMAL = {"global_expressions": _EQ, "postprocessed": _EQ, "constraints": _EQ, "checks": {"where": "True", "message": "x"}, "objectives": {"sense": "minimise", **_EQ},
           "piecewise_constraints": {"x_expression": "a", "y_expression": "b", "x_values": "c", "y_values": "d"}}


def default_leaves():
    from calliope.schemas.math_schema import CalliopeBuildMath

    out = []
    for k in KINDS:
        dump = CalliopeBuildMath(**{k: {"name_x": MINIMAL.get(k, {})}}).model_dump()[k]["name_x"]
        out += [[k, p, v] for p, v in flat(dump) if p[0] not in MINIMAL.get(k, {})]
    return out


def eqs(*e):
    return [{"expression": x} for x in e]


CEQ = ["v1 >= p1", "v1 <= 8", "v1 >= 1", "2 * v1 >= 1", "v1 + p1 >= 2"]


def full(rng, kind, name):
    """A complete component definition that can be built with variable v1 and parameter p1."""
    return {
        "parameters": {"default": rng.randint(1, 9)},
        "lookups": {"dtype": "float"},
        "variables": {"foreach": ["nodes"], "bounds": {"min": 0, "max": rng.randint(10, 50)}},
        "constraints": {"foreach": ["nodes"], "equations": eqs(rng.choice(CEQ))},
        "global_expressions": {"foreach": ["nodes"], "equations": eqs(f"v1 * {rng.randint(2, 9)}")},
        "objectives": {"sense": "minimise", "equations": eqs("sum(v1, over=nodes)")},
        "postprocessed": {"foreach": ["nodes"], "equations": eqs("v1 + 1")},
        "checks": {"where": "p1>100", "message": f"m {name}"},
        "dimensions": {"iterator": name},
    }[kind]


def modification(rng, kind, tag):
    """One or more single settings of an existing component."""
    k = rng.randint(0, 99)
    opts = {
        "parameters": [{"default": k % 60 + 20}, {"unit": f"u{tag}{k}"}, {"resample_method": rng.choice(["sum", "mean"])}, {"title": f"t{k}"}],
        "lookups": [{"title": f"t{k}"}, {"default": k + 1}],
        "variables": [{"bounds": {"max": k + 60}}, {"bounds": {"min": -k - 1}}, {"domain": "integer"}, {"unit": f"u{k}"},
                      {"bounds": {"min": 1, "max": k + 2}}, {"active": False}, {"default": k}],
        "constraints": [{"equations": eqs(*rng.sample(CEQ, 1))}, {"description": f"d{tag}{k}"}, {"active": rng.random() < 0.4},
                        {"sub_expressions": {f"se{k % 3}": eqs(f"v1 * {k}")}}, {"where": "p1>0"}],
        "global_expressions": [{"equations": eqs(f"v1 * {k + 10}")}, {"unit": f"u{k}"}, {"order": k + 1}, {"active": False}],
        "objectives": [{"equations": eqs(f"sum(v1, over=nodes) * {k + 2}")}, {"sense": "maximise"}, {"title": f"t{k}"}],
        "postprocessed": [{"equations": eqs(f"v1 + {k}")}, {"title": f"t{k}"}],
        "checks": [{"message": f"m{k}"}, {"errors": "warn"}, {"active": False}],
        "dimensions": [{"title": f"t{k}"}],
    }[kind]
    m = rng.choice(opts)
    return m


BASE_COMPS = {"parameters": ["p1", "p2"], "variables": ["v1", "v2"], "constraints": ["c1", "c2"], "global_expressions": ["g1", "g2"],
              "objectives": ["o1"], "postprocessed": ["pp1"], "checks": ["ck1"], "lookups": ["lk1"], "dimensions": ["foo"]}


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v


def make_layer(rng, name, clash):
    d: dict = {}
    for _ in range(rng.randint(1, 5)):
        kind = rng.choice(list(BASE_COMPS))
        comp = rng.choice(BASE_COMPS[kind])
        mod = modification(rng, kind, name)
        if comp in ("v1", "p1", "o1") and "active" in mod:
            continue
        merge(d, {kind: {comp: mod}})
    if rng.random() < 0.5:
        kind = rng.choice(["parameters", "variables", "constraints", "global_expressions", "postprocessed", "checks"])
        # added names are shared between layers now and then
        nm = rng.choice([f"{name}_{kind[:3]}", f"shared_{kind[:3]}"])
        merge(d, {kind: {nm: full(rng, kind, nm)}})
    if clash:
        kind, nm = rng.choice([("parameters", "v2"), ("variables", "p2"), ("constraints", "g1"), ("lookups", "c2"), ("checks", "c1"),
                               ("dimensions", "p2"), ("objectives", "g2"), ("postprocessed", "v2")])
        d2 = copy.deepcopy(full(rng, kind, nm))
        if rng.random() < 0.4:
            d2["active"] = False
        merge(d, {kind: {nm: d2}})
    return d


def dotted(rng, d, depth=0):
    """Write some nested blocks with dotted keys."""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            v = dotted(rng, v, depth + 1)
            if len(v) == 1 and rng.random() < 0.3:
                k2, v2 = next(iter(v.items()))
                out[f"{k}.{k2}"] = v2
                continue
        out[k] = v
    return out


def observe(model):
    stored = [[n, flat(v)] for n, v in model.math.init.model_dump().items()]
    return {"math": flat(model.math.build.model_dump(exclude_defaults=True)), "priority": list(model.runtime.math_priority), "stored": stored}


COMPKINDS = ["variables", "constraints", "global_expressions", "objectives"]


def execute(arg):
    cid, seed, dfl = arg
    import calliope

    rng = random.Random(seed)
    base = tiny.math(dimensions={"foo": {"iterator": "foo"}}, lookups={"lk1": {"dtype": "float"}})
    for kind, names in BASE_COMPS.items():
        for n in names:
            if kind not in ("lookups", "dimensions"):
                merge(base, {kind: {n: full(rng, kind, n)}})
    names = ["operate", "spores", "milp", "x1", "x2", "zeta"]
    clashy = rng.random() < 0.25
    files = {"base": base}
    for n in names:
        if n in tiny.PREDEFINED or rng.random() < 0.85:
            files[n] = make_layer(rng, n, clashy and rng.random() < 0.4)
    files["storage_inter_cluster"] = {"variables": {}}
    mdict = {}
    for n in [*names, "base", "only_in_dict"]:
        if rng.random() < 0.25:
            mdict[n] = make_layer(rng, "dict_" + n, False)

    def settings():
        mode = rng.choice(["base", "base", "operate", "spores"])
        pool = ["x1", "x2", "zeta", "milp", "only_in_dict"]
        if rng.random() < 0.4:
            pool += ["base", "operate", "spores"]  # also those that apply anyway: listed again, they apply again
        extra = rng.sample(pool, rng.randint(0, 3))
        extra = [e for e in extra if e in files or e in mdict or rng.random() < 0.15]
        return mode, extra

    mode, extra = settings()
    d = tiny.definition(base, init={"mode": mode, "extra_math": extra}, build={"objective": "o1"})
    paths = d["config"]["init"]["math_paths"]
    for n, t in files.items():
        paths[n] = tiny.write(dotted(rng, t), "m_" + n)
    md = copy.deepcopy(mdict) if mdict or rng.random() < 0.5 else None

    def attempt(fn, mode, extra, build):
        out = {"ok": False, "math": [], "priority": [], "stored": [], "build_ok": True, "comps": []}
        try:
            model = fn()
            if build:
                try:
                    model.build()
                    out["comps"] = [[k, n] for k in COMPKINDS for n, da in getattr(model.backend, k).data_vars.items()
                                    if bool(da.notnull().any())]
                except Exception as e:
                    out["build_ok"] = False
                    out["err"] = common.err_of(e) + str(e)[:200]
            out.update(observe(model))
            out["ok"] = True
        except Exception as e:
            out["err"] = common.err_of(e) + str(e)[:200]
            model = None
        return model, {"mode": mode, "extra": extra, "built": "yes" if build else "no", "out": out}

    steps = []
    model, st = attempt(lambda: calliope.read_dict(copy.deepcopy(d), math_dict=md), mode, extra, rng.random() < 0.6)
    steps.append(st)
    untouched = True
    if model is not None:
        before = str(model.dump_all_attrs()["math"])
        # another model from the same files
        mode2, extra2 = settings()
        d2 = copy.deepcopy(d)
        d2["config"]["init"].update({"mode": mode2, "extra_math": extra2})
        _, st2 = attempt(lambda: calliope.read_dict(d2, math_dict=md), mode2, extra2, rng.random() < 0.3)
        steps.append(st2)
        untouched = before == str(model.dump_all_attrs()["math"])
        # the first model, reloaded in another mode
        if rng.random() < 0.7:
            f = str(Path(paths["base"]).parent / "m.nc")
            model.to_netcdf(f)
            mode3, extra3 = settings()
            fn = lambda: calliope.read_netcdf(f, mode=mode3, extra_math=extra3)
            _, st3 = attempt(fn, mode3, extra3, rng.random() < 0.4)
            steps.append(st3)
            untouched = untouched and before == str(model.dump_all_attrs()["math"])
            os.unlink(f)
    used = sorted(files)
    return {"id": cid, "files": [[n, flat(files[n])] for n in used], "dict": [[n, flat(v)] for n, v in sorted(mdict.items())],
            "steps": steps, "untouched": untouched, "defaults": dfl}


def execute_real(arg):
    """Pre-defined math files of the package, read here independently of the package's own reader."""
    cid, mode, extra, replaced, dfl = arg
    import calliope
    import ruamel.yaml

    y = ruamel.yaml.YAML(typ="safe")
    mdir = Path(calliope.__file__).parent / "math"
    files = {f.stem: y.load(f.read_text()) for f in sorted(mdir.glob("*.yaml"))}
    d = tiny.definition(tiny.math(), init={"mode": mode, "extra_math": extra})
    d["config"]["init"]["math_paths"] = {}
    if replaced:
        files[replaced] = {"variables": {"flow_cap": {"unit": "mine", "bounds": {"max": 77}}}}
        d["config"]["init"]["math_paths"] = {replaced: tiny.write(files[replaced])}
    out = {"ok": False, "math": [], "priority": [], "stored": [], "build_ok": True, "comps": []}
    try:
        out.update(observe(calliope.read_dict(d)))
        out["ok"] = True
    except Exception as e:
        out["err"] = common.err_of(e) + str(e)[:300]
    return {"id": cid, "files": [[n, flat(t)] for n, t in files.items()], "dict": [], "untouched": True, "defaults": dfl,
            "steps": [{"mode": mode, "extra": extra, "built": "no", "out": out}]}


def run(check):
    import itertools

    import calliope  # noqa: F401

    common.model_check("TreeLaws", "TreeLawsBig.cfg" if check.thorough() else "TreeLaws.cfg")
    dfl = default_leaves()
    n = check.n(320, 4000)
    recs = common.pmap(execute, [(f"math-{i}", f"{check.seed}/P04/{i}", dfl) for i in range(n)], chunksize=4)
    combos = [(m, list(x), r) for m in ("base", "operate", "spores") for k in range(3)
              for x in itertools.permutations(["milp", "storage_inter_cluster"], k) for r in ("", "milp", "operate", "spores")
              if not (r and r not in (m, *x))]
    if not check.thorough():
        combos = combos[::3] + [("operate", ["milp"], ""), ("spores", ["storage_inter_cluster"], "")]
    recs += common.pmap(execute_real, [(f"real-{i}", m, x, r, dfl) for i, (m, x, r) in enumerate(combos)])
    check.judge("MathStack", recs, sample=1)
    check.coverage["initialisations"] = sum(len(r["steps"]) for r in recs)
    check.coverage["accepted"] = sum(s["out"]["ok"] for r in recs for s in r["steps"])
    check.coverage["built"] = sum(s["built"] == "yes" and s["out"]["build_ok"] for r in recs for s in r["steps"])
