"""Writes MANIFEST.json from the list of built checks."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NOTES = json.loads((V / "tools/levels.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES and (V / f"harness/{i.lower()}.py").exists():
        n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": n["technique"], "level": "model_checking", "level_note": n["note"]})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "check not built yet")})
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, judged by TLC; harness/ generates cases, runs the code in /repo/src and records what it did."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
