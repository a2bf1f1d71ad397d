"""P03: YAML imports, dotted keys, round trips (spec/Imports.tla)."""

from __future__ import annotations

import copy
import os
import random
import shutil
import tempfile
from pathlib import Path

from harness import common
from harness.trees import Tree, flatten, leaf

KEYS = ["a", "b", "c", "d1", "long_name", "0", "ü"]


def rpath(rng, depth=3, keys=KEYS):
    return tuple(rng.choice(keys) for _ in range(rng.randint(1, depth)))


def rvalue(rng, tag, soft=True):
    x = rng.random()
    if x < 0.4:
        return f"{tag}{rng.randint(0, 99)}"
    if x < 0.5:
        return rng.randint(-5, 3_000_000_000)
    if x < 0.6:
        return rng.choice([0.5, 1e-7, 1e22, -3.25, float("inf")])
    if x < 0.68:
        return rng.random() < 0.5
    if x < 0.78:
        return [rng.choice([1, "x", 2.5, None, True]) for _ in range(rng.randint(0, 3))]
    if x < 0.88:
        return rng.choice(["yes", "null", "1e3", "2005-01-01", "~", "", "a: b", "multi\nline", "#no", "ümläut", "1_000", "0x1f", " lead",
                           "off", "[1, 2]", "{}", "1.0", "12:30:45", "!tag", "it's", '"q"', "a.b.c"])
    if soft:
        return None if x < 0.95 else {}
    return 7


def yaml_text(rng, d):
    """YAML text of a dict: either through ruamel's own dumper or as JSON."""
    import json
    from io import StringIO

    import ruamel.yaml

    if rng.random() < 0.4:
        t = json.dumps(d, ensure_ascii=rng.random() < 0.5)
        return t.replace("Infinity", ".inf")
    y = ruamel.yaml.YAML(typ="safe")
    y.default_flow_style = rng.choice([True, False, None])
    y.allow_unicode = True
    s = StringIO()
    y.dump(d, s)
    return s.getvalue()


def files_case(arg):
    cid, seed = arg
    from calliope.io import read_rich_yaml

    rng = random.Random(seed)
    n = rng.randint(1, 5)
    allow = rng.random() < 0.35
    clash = rng.random() < 0.35 and not allow
    root = Path(tempfile.mkdtemp(prefix="imp_"))
    try:
        dirs = [root, root / "sub", root / "sub" / "deep", root / "other"]
        for d in dirs:
            d.mkdir(exist_ok=True)
        # same file names in different directories: relative imports must resolve against the containing file
        fn = ["m.yaml", "x.yaml", "y.yaml"]
        places = rng.sample([(d, f) for d in dirs for f in fn], n)
        decoys = [p for p in ((d, f) for d in dirs for f in fn) if p not in places]
        children = {k: [] for k in range(n)}
        for k in range(1, n):
            children[rng.randrange(k)].append(k)
        for k in children:
            rng.shuffle(children[k])
        if clash and rng.random() < 0.2 and n > 2:  # diamond
            children[0].append(n - 1)
        seen = Tree()
        trees = []
        for k in range(n):
            t = Tree()
            for _ in range(rng.randint(1, 5)):
                p = rpath(rng, keys=["a", "b", "c", "k%d" % rng.randint(0, 4)])
                if allow:
                    # values and blocks are kept apart: a value sits at depth 3 (or is a plain top-level v_ key)
                    p = (p * 3)[:3] if rng.random() < 0.7 else ("v_" + p[0],)
                    t.put(p, rvalue(rng, f"f{k}_", soft=False))
                elif clash or seen.can_put(p):
                    if t.put(p, rvalue(rng, f"f{k}_")) and not clash:
                        seen.put(p, 1)
            if not t.d:
                t.put((f"only{k}",), k)
            trees.append(t)
        for d, f in decoys:
            (d / f).write_text("decoy: wrong_file\n")
        for k, (d, f) in enumerate(places):
            body = trees[k].render(rng, 0.3)
            if children[k]:
                imps = []
                for c in children[k]:
                    cd, cf = places[c]
                    tgt = cd / cf
                    imps.append(str(tgt) if rng.random() < 0.2 else os.path.relpath(tgt, d))
                body = {"import": imps, **body} if rng.random() < 0.5 else {**body, "import": imps}
            (d / f).write_text(yaml_text(rng, body), encoding="utf-8")
        top = places[0][0] / places[0][1]
        cwd = os.getcwd()
        try:
            os.chdir(rng.choice(dirs))
            arg_ = rng.choice([str(top), top, os.path.relpath(top)])
            kw = {"allow_override": True} if allow else {}
            try:
                out = {"ok": True, "tree": sorted(flatten(read_rich_yaml(arg_, **kw).as_dict()))}
            except Exception as e:
                out = {"ok": False, "err": common.err_of(e), "tree": []}
        finally:
            os.chdir(cwd)
        return {"id": cid, "kind": "files", "allow": allow, "out": out,
                "files": [{"tree": trees[k].json(), "imports": [c + 1 for c in children[k]]} for k in range(n)]}
    finally:
        shutil.rmtree(root, ignore_errors=True)


def round_case(arg):
    cid, seed = arg
    import numpy as np

    from calliope.attrdict import AttrDict
    from calliope.io import read_rich_yaml, to_yaml

    rng = random.Random(seed)
    t = Tree()
    for _ in range(rng.randint(1, 8)):
        t.put(rpath(rng), rvalue(rng, "v"))
    if not t.d:
        t.put(("a",), 1)
    given = Tree(t.d)
    for p, v in list(given.d.items()):
        if rng.random() < 0.3:
            if isinstance(v, bool):
                given.d[p] = np.bool_(v)
            elif isinstance(v, int):
                given.d[p] = np.int64(v)
            elif isinstance(v, float):
                given.d[p] = np.float64(v)
    d = given.render(rng, 0.3)
    if rng.random() < 0.5:
        d = AttrDict(d)
    tmp = Path(tempfile.mkdtemp(prefix="rt_"))
    try:
        try:
            if rng.random() < 0.5:
                to_yaml(d, tmp / "out.yaml")
                back = read_rich_yaml(tmp / "out.yaml")
            else:
                back = read_rich_yaml(to_yaml(d))
            out = {"ok": True, "tree": sorted(flatten(back.as_dict()))}
        except Exception as e:
            out = {"ok": False, "err": common.err_of(e), "tree": []}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return {"id": cid, "kind": "round", "tree": t.json(), "out": out}


def ops_case(arg):
    cid, seed = arg
    from calliope.attrdict import AttrDict

    rng = random.Random(seed)
    keys = ["a", "b", "c"]
    start = Tree()
    for _ in range(rng.randint(0, 5)):
        start.put(rpath(rng, keys=keys), rng.choice(["v0", None, {}, 5]))
    d = AttrDict(start.render(rng, 0.3))
    snap = lambda: sorted(flatten(d.as_dict()))
    states, ops, unshared = [snap()], [], True
    operands = []
    for k in range(rng.randint(2, 7)):
        op = rng.choice(["set", "set", "union", "union", "del", "get"])
        o = {"op": op, "path": list(rpath(rng, keys=keys)), "val": "", "tree": [], "allow": False, "got": "", "ok": True}
        try:
            if op == "set":
                v = rng.choice([f"s{k}", k, None, {}])
                o["val"] = leaf(v)
                d.set_key(".".join(o["path"]), copy.deepcopy(v))
            elif op == "union":
                t = Tree()
                for _ in range(rng.randint(1, 3)):
                    t.put(rpath(rng, keys=keys), rng.choice([f"u{k}", k + 50, None, {}]))
                o["tree"], o["allow"] = t.json(), rng.random() < 0.6
                other = t.render(rng, 0.3)
                other = AttrDict(other) if rng.random() < 0.7 else other
                operands.append((other, copy.deepcopy(other)))
                d.union(other, allow_override=o["allow"])
            elif op == "del":
                d.del_key(".".join(o["path"]))
            else:
                v = d.get_key(".".join(o["path"]))
                o["got"] = "<block>" if isinstance(v, dict) and v else leaf(v)
        except Exception:
            o["ok"] = False
        ops.append(o)
        states.append(snap())
    unshared = all(a == b for a, b in operands)
    return {"id": cid, "kind": "ops", "ops": ops, "states": states, "unshared": unshared}


def run(check):
    import calliope.io  # noqa: F401

    common.model_check("TreeLaws", "TreeLawsBig.cfg" if check.thorough() else "TreeLaws.cfg")
    n = check.n(1200, 15000)
    recs = common.pmap(files_case, [(f"files-{i}", f"{check.seed}/P03f/{i}") for i in range(n)], chunksize=20)
    recs += common.pmap(round_case, [(f"round-{i}", f"{check.seed}/P03r/{i}") for i in range(n)], chunksize=20)
    recs += common.pmap(ops_case, [(f"ops-{i}", f"{check.seed}/P03o/{i}") for i in range(2 * n)], chunksize=40)
    check.judge("Imports", recs)
    check.coverage["files_accepted"] = sum(r["out"]["ok"] for r in recs if r["kind"] == "files")
    check.coverage["operations"] = sum(len(r["ops"]) for r in recs if r["kind"] == "ops")
