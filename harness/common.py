"""Shared machinery: TLC runner, verdict collection, evidence, replays, known findings.

Every check follows the same scheme (DESIGN.md, "Binding"):

  1. cases (inputs / histories) are produced, by TLC (state graph or evaluated
     definitions) and/or by seeded generators;
  2. the real code in /repo is executed on them and what it did is recorded;
  3. TLC evaluates the TLA+ specification on every record and prints, per
     record, the set of clauses that fail.
"""

from __future__ import annotations

import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
SPEC = VERIF / "spec"
EVID = VERIF / "evidence"
REPLAYS = EVID / "replays"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("MBV_PROCS") or min(8, os.cpu_count() or 1))

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")


class MachineryError(RuntimeError):
    """The check itself failed (neither a pass nor a violation)."""


_SCRATCH: list[str] = []


def scratch(prefix="mbv") -> Path:
    d = tempfile.mkdtemp(prefix=prefix + "_")
    _SCRATCH.append(d)
    return Path(d)


def cleanup():
    for d in _SCRATCH:
        shutil.rmtree(d, ignore_errors=True)
    _SCRATCH.clear()


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def run_tlc(module: str, cfg: str | None = None, env: dict | None = None, workers="auto",
            timeout=800, extra=(), heap="3g", check=True):
    """Run TLC on spec/<module>.tla; returns (stdout, generated, distinct)."""
    meta = scratch("tlc")
    cfgp = SPEC / (cfg or (module + ".cfg"))
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", f"-Xmx{heap}", "-Xss32m", "-cp", TLA_CP, "tlc2.TLC",
           "-metadir", str(meta), "-workers", str(workers), "-config", str(cfgp),
           "-noGenerateSpecTE", *extra, str(SPEC / (module + ".tla"))]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise MachineryError(f"TLC timed out on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = _STATS.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if check and r.returncode != 0:
        raise MachineryError(f"TLC failed on {module} (rc {r.returncode}):\n{out[-6000:]}\n{r.stderr[-2000:]}")
    return out, gen, dist


def tlc_prints(out: str):
    """JSON values printed by PrintT(ToJson(..)) in TLC output."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"{') and line.endswith('}"'):
            res.append(json.loads(json.loads(line)))
    return res


class Tally:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.models = []

    def add(self, name, gen, dist):
        self.states += dist
        self.transitions += gen
        self.models.append({"model": name, "states_generated": gen, "distinct_states": dist})


TALLY = Tally()


def model_check(module, cfg=None, env=None, workers=NPROC, timeout=800, extra=(), expect_states=True):
    """Exhaustive TLC run of a specification; any invariant violation is a machinery error
    (the specification contradicts itself), never an alarm about the code."""
    out, gen, dist = run_tlc(module, cfg, env=env, workers=workers, timeout=timeout, extra=extra)
    if "No error has been found" not in out:
        raise MachineryError(out[-4000:])
    TALLY.add(cfg or module, gen, dist)
    if expect_states and dist == 0:
        raise MachineryError(f"{module}: vacuous model")
    return out


def _validate_chunk(args):
    module, cfg, path, n, timeout = args
    out, gen, dist = run_tlc(module, cfg, env={"RECS": path}, workers=1, timeout=timeout, check=False)
    ver, done = {}, None
    for v in tlc_prints(out):
        if "verdict" in v:
            ver[v["verdict"]] = v["clauses"] if isinstance(v["clauses"], list) else list(v["clauses"].values())
        elif "done" in v:
            done = v["done"]
    if done != n or "No error has been found" not in out:
        return None, out[-5000:], gen, dist
    return ver, "", gen, dist


def validate(module: str, records: list, cfg: str | None = None, chunks: int = NPROC, timeout=800):
    """Let TLC judge every record. Returns {record index (0-based): [failing clauses]}."""
    if not records:
        raise MachineryError(f"no records to validate with {module}")
    d = scratch("recs")
    chunks = max(1, min(chunks, (len(records) + 3) // 4))
    parts = [list(range(i, len(records), chunks)) for i in range(chunks)]
    jobs = []
    for k, idx in enumerate(parts):
        f = d / f"r{k}.json"
        f.write_text(json.dumps([records[i] for i in idx]))
        jobs.append((module, cfg, str(f), len(idx), timeout))
    verdicts: dict[int, list] = {}
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(NPROC) as ex:
        for (ver, err, gen, dist), idx in zip(ex.map(_validate_chunk, jobs), parts):
            TALLY.states += dist
            TALLY.transitions += gen
            if ver is None:
                raise MachineryError(f"{module}: validation did not finish:\n{err}")
            for k, c in ver.items():
                verdicts[idx[k - 1]] = sorted(c)
    TALLY.models.append({"model": module + " (record validation)", "records": len(records)})
    return verdicts


# --------------------------------------------------------------------------
# real-code execution
# --------------------------------------------------------------------------
def quiet():
    """Silence calliope/pyomo/gurobi in this process."""
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def _pool_init():
    os.environ["OMP_NUM_THREADS"] = "1"
    quiet()
    # solver chatter must not mix with VIOLATION lines
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)


def pmap(fn, items, procs=NPROC, chunksize=1):
    """Parallel map in forked workers (calliope imported once by the parent)."""
    items = list(items)
    if not items:
        return []
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(items)), initializer=_pool_init) as pool:
        return pool.map(fn, items, chunksize=chunksize)


def err_of(exc: BaseException) -> str:
    return type(exc).__name__


def frac(x, limit=10**6):
    """Float -> exact small rational [num, den] (TLC integers are 32 bit)."""
    f = Fraction(x).limit_denominator(limit)
    return [f.numerator, f.denominator]


def sig(x, digits=10):
    """Canonical string for a float value."""
    if x is None:
        return "None"
    if isinstance(x, bool):
        return str(x)
    try:
        x = float(x)
    except (TypeError, ValueError):
        return str(x)
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    s = f"{x:.{digits}g}"
    return "0" if s in ("-0", "0") else s


# --------------------------------------------------------------------------
# check protocol
# --------------------------------------------------------------------------
class Check:
    """One property check: collects failures, writes evidence, prints verdict lines."""

    def __init__(self, prop: str, level: str = "model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.failures = []  # (case_id, clauses, record)
        self.coverage = {}
        self.samples = []
        self.assumptions = []
        self.traces = 0
        self.deadline = float(os.environ.get("MBV_BUDGET", "600" if TIER == "quick" else "3000"))
        self.seed = SEED
        self.tier = TIER
        self.rng = random.Random(f"{prop}-{SEED}")
        kf = VERIF / "known_findings.json"
        self.known = []
        if kf.exists():
            self.known = [k for k in json.loads(kf.read_text()) if k["property"] == prop and k["status"] == "known"]
        self.known_hit = set()

    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough() else quick

    def elapsed(self):
        return time.time() - self.t0

    def judge(self, module, records, cfg=None, sample=2, chunks=NPROC):
        """Validate records; record dicts must carry 'id'. Registers failures."""
        ver = validate(module, records, cfg=cfg, chunks=chunks)
        self.traces += len(records)
        for i, clauses in sorted(ver.items()):
            self.fail(records[i].get("id", str(i)), clauses, {"module": module, "record": records[i]})
        for r in records[:sample]:
            s = json.dumps(r)
            self.samples.append(s if len(s) < 3000 else s[:3000] + "...")
        return ver

    def fail(self, case_id, clauses, record):
        for k in self.known:
            if k["case"] == case_id and set(clauses) <= set(k.get("clauses", clauses)):
                self.known_hit.add(k["case"])
                return
        self.failures.append((case_id, list(clauses), record))

    def finish(self):
        EVID.mkdir(exist_ok=True)
        REPLAYS.mkdir(exist_ok=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        replay = None
        if self.failures:
            for n, (cid, clauses, rec) in enumerate(self.failures[:20]):
                f = REPLAYS / f"{self.prop}-{n}.json"
                f.write_text(json.dumps({"property": self.prop, "case": cid, "clauses": clauses, "seed": self.seed,
                                         "tier": self.tier, "record": rec}, indent=1, default=str))
                if replay is None:
                    replay = f
                print(f"  case {cid}: failing clauses {clauses}  -> {f}")
        cov = dict(self.coverage)
        cov.setdefault("states", TALLY.states)
        cov.setdefault("transitions", TALLY.transitions)
        cov.setdefault("traces_validated_against_impl", self.traces)
        cov.setdefault("models", TALLY.models[:60])
        cov.setdefault("samples", self.samples[:6] or ["(none)"])
        ev = {"property": self.prop, "tier": self.tier if self.tier in ("quick", "thorough") else "quick", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 2), "violations": len(self.failures)}
        (EVID / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str))
        cleanup()
        if self.failures:
            print(f"{len(self.failures)} failing case(s)")
            print(f"VIOLATION property={self.prop} replay={replay}")
            sys.stdout.flush()
            return 1
        print(f"{self.prop}: held on {self.traces} recorded executions, {TALLY.states} TLC states ({self.elapsed():.0f}s)")
        return 0


def rand_sub(rng, xs, p=0.5):
    return [x for x in xs if rng.random() < p]
