"""P18: generated run scripts, executed with a recorder in place of calliope, and generated scenario files (spec/Runs.tla, spec/RunsMC.tla)."""

from __future__ import annotations

import json
import os
import random
import re
import shutil
import subprocess
import traceback

from harness import common

RECORDER = """#!/bin/sh
{ for a in "$@"; do printf '%s\\037' "$a"; done; printf '\\036'; } >> "$RECORDED"
"""
NAMES = ["base", "milp", "cold-fusion", "s_1", "run2005", "10", "y2000", "a.b", "cost=low", "x+y", "Ünit", "override1,override2", "a,b,c", "very_long_name_of_a_scenario"]
MODELS = ["model.yaml", "sub dir/model.yaml", "m.yml", "deep/er/my model.yaml"]
MORE = [[], [], ["--debug"], ["--fail_when_infeasible", "--quiet"], ["--save_logs", "logs"], ["--profile", "--profile_filename", "p.txt"]]


class Case:
    def __init__(self, cid, seed, groups=None):
        self.id, self.groups = cid, groups
        self.rng = random.Random(str(seed))
        self.err = ""

    def cli(self, args):
        from click.testing import CliRunner

        from calliope import cli

        res = CliRunner().invoke(cli.cli, args)
        if res.exit_code != 0:
            raise RuntimeError(f"exit {res.exit_code}: {res.output[-800:]} {res.exception!r}")

    def scenarios(self):
        from calliope.io import read_rich_yaml

        rng = self.rng
        groups = self.groups or [[f"{rng.choice('abcdef')}{k}_{j}" for j in range(rng.choice([1, 1, 2, 3, 5, 11]))] for k in range(rng.randint(1, 3))]
        prefix = rng.choice(["", "run_", "s", "scenario-"])
        box = common.scratch("t18")
        out = str(box / "s.yaml")
        r = {"id": self.id, "kind": "scenarios", "prefix": prefix or "scenario_", "groups": groups, "ok": True, "obs": []}
        try:
            self.cli(["generate_scenarios", "model.yaml", out, *[";".join(g) for g in groups], *(["--scenario_name_prefix", prefix] if prefix else [])])
            got = read_rich_yaml(out)
            r["obs"] = [{"name": str(k), "overrides": [str(x) for x in v]} for k, v in got["scenarios"].items()]
        except Exception:
            self.err = traceback.format_exc()[-1500:]
            r["ok"] = False
        return r

    def execute(self, cmd, box, env=None):
        rec = box / "recorded"
        rec.unlink(missing_ok=True)
        e = {"PATH": f"{box}/bin:/usr/bin:/bin", "RECORDED": str(rec), "HOME": str(box), "LANG": "C.UTF-8", **(env or {})}
        p = subprocess.run(cmd, cwd=box, env=e, capture_output=True, text=True, timeout=60)
        self.err += p.stderr[-300:]
        text = rec.read_text() if rec.exists() else ""
        return [c.split("\037")[:-1] for c in text.split("\036")[:-1]]

    def windows(self, path):
        """The commands of a batch file: double quotes group, everything else is literal."""
        calls = []
        for ln in open(path, newline="", encoding="utf-8").read().split("\r\n"):
            if not ln.startswith("calliope "):
                continue
            calls.append([re.sub('"', "", t) for t in re.findall(r'(?:[^\s"]|"[^"]*")+', ln)][1:])
        return calls

    def record(self):
        rng = self.rng
        box = common.scratch("t18")
        for d in ("bin", "sub dir", "deep/er"):
            (box / d).mkdir(parents=True, exist_ok=True)
        (box / "bin/calliope").write_text(RECORDER)
        os.chmod(box / "bin/calliope", 0o755)
        kind = rng.choice(["bash", "bash", "bsub", "sbatch", "windows"])
        model = rng.choice(MODELS)
        n = rng.choice([1, 2, 3, 9, 10, 11, rng.randint(1, 14)])
        names = (rng.sample([x for x in NAMES], min(n, len(NAMES))) + [f"o{k}" for k in range(n)])[:n]
        plain = [x for x in names if "," not in x and "." not in x] or ["only"]
        scen = rng.sample(plain, rng.randint(1, len(plain))) if rng.random() < 0.6 else []
        given = [rng.choice(names) if rng.random() < 0.1 else x for x in names] if rng.random() < 0.5 else []
        ovr = plain
        d = {"overrides": {o: {"config": {"init": {"name": o}}} for o in ovr}}
        if scen:
            d["scenarios"] = {s: [ovr[0]] for s in scen}
        elif rng.random() < 0.3:
            d["scenarios"] = {}
        od = ""
        # the override dictionary may define further scenarios or overrides
        if rng.random() < 0.4:
            od = "{config: {init: {name: x y}}}"
            if rng.random() < 0.5:
                od = "{overrides: {zz: {config: {init: {name: z}}}}}"
                ovr = [*ovr, "zz"]
            elif scen and rng.random() < 0.5:
                od = "{scenarios: {zs: [" + ovr[0] + "]}}"
                scen = [*scen, "zs"]
        more = rng.choice(MORE)
        (box / model).write_text(json.dumps(d))
        threads, mem, minutes = rng.randint(1, 8), rng.choice(["1G", "200M", "16000"]), rng.choice([1, 59, 60, 100, 1439, 1440, 1500, 6000])
        time = str(minutes) if rng.random() < 0.6 else f"{minutes // 60:02d}:{minutes % 60:02d}:00"
        out = rng.choice(["go.sh", "run all.sh" if False else "run.sh"]) if kind != "windows" else "go.bat"
        args = ["generate_runs", model, out, "--kind", kind]
        args += ["--scenarios", ";".join(given)] if given else []
        args += ["--override_dict", od] if od else []
        args += ["--additional_args", " ".join(more)] if more else []
        args += ["--cluster_threads", str(threads), "--cluster_mem", mem, "--cluster_time", time]
        r = {"id": self.id, "kind": kind, "model": model, "given": given, "scenarios": scen, "overrides": ovr, "more": ([f"--override_dict={od}"] if od else []) + more,
             "threads": str(threads), "mem": mem, "time": minutes, "ok": True, "all": [], "each": [], "array": [], "obsres": []}
        cwd = os.getcwd()
        os.chdir(box)
        try:
            self.cli(args)
        except Exception:
            self.err = traceback.format_exc()[-1500:]
            r["ok"] = False
            return r
        finally:
            os.chdir(cwd)
        n = len(given or scen or ovr)
        if kind == "windows":
            r["all"] = self.windows(box / out)
            return r
        script = (box / out).read_text()
        if kind == "bash":
            r["all"] = self.execute(["./" + out], box)
            each = [self.execute(["./" + out, str(k + 1)], box) for k in range(n)]
        else:
            m = re.search(r"^#BSUB -J \S+\[(\d+)-(\d+)\]$|^#SBATCH --array=(\d+)-(\d+)$", script, re.M)
            r["array"] = [int(x) for x in m.groups() if x] if m else []
            r["all"] = self.execute(["./" + out + ".array.sh"], box)
            os.chmod(box / out, 0o755)
            each = [self.execute(["./" + out], box, {"LSB_JOBINDEX": str(k + 1), "SLURM_ARRAY_TASK_ID": str(k + 1), "SLURM_SUBMIT_DIR": str(box)}) for k in range(n)]
            find = lambda pat: (re.findall(pat, script, re.M) + ["?"])[0]  # noqa: E731
            if kind == "bsub":
                t = find(r"^#BSUB -W (\S+)$")
                r["obsres"] = [find(r"^#BSUB -n (\S+)$"), find(r'^#BSUB -R "rusage\[mem=(\S+)\]"$'), t]
            else:
                t = find(r"^#SBATCH --time=(\S+)$")
                r["obsres"] = [find(r"^#SBATCH --ntasks=(\S+)$"), find(r"^#SBATCH --mem=(\S+)$"), t]
            if ":" in t:
                days, _, hms = t.rpartition("-")
                p = [int(x) for x in hms.split(":")]
                r["obsres"][2] = int(days or 0) * 1440 + p[0] * 60 + p[1] if len(p) == 3 or kind == "bsub" else -1
            else:
                r["obsres"][2] = int(t) if t.isdigit() else -1
        r["each"] = [c for e in each for c in e] if all(len(e) == 1 for e in each) else [["not one run each"]]
        return r


def case(arg):
    c = Case(*arg[:2], arg[2])
    try:
        r = c.scenarios() if arg[0].startswith("scen") else c.record()
        r["err"] = c.err
        return r
    except Exception:
        return {"id": arg[0], "crash": traceback.format_exc()[-1500:]}


def jobs(check, n1, n2, groups):
    return [(f"script-{i}", f"{check.seed}/P18/{i}", None) for i in range(n1)] + [(f"scen-{i}", f"{check.seed}/P18s/{i}", groups[i] if i < len(groups) else None) for i in range(n2 + len(groups))]


def run(check):
    import calliope  # noqa: F401

    out = common.model_check("RunsMC", workers=1)
    groups = [p["groups"] for p in common.tlc_prints(out) if "groups" in p]
    check.coverage["groups_of_overrides"] = len(groups)
    recs = common.pmap(case, jobs(check, check.n(240, 3000), check.n(60, 1000), groups), chunksize=4)
    for r in recs:
        if "crash" in r:
            raise common.MachineryError(r["crash"])
        r.pop("err")
    check.judge("Runs", recs)
