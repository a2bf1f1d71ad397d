"""Append "fixed" entries to known_findings.json: lines `PROP HASH what` on stdin."""
import json, sys
from pathlib import Path
p = Path(__file__).resolve().parent.parent / "known_findings.json"
k = json.loads(p.read_text())
for line in sys.stdin.read().splitlines():
    if line.strip():
        prop, h, what = line.split(" ", 2)
        k.append({"property": prop, "case": "", "status": "fixed", "what": f"fixed: property={prop} {h} {what}"})
p.write_text(json.dumps(k, indent=1) + "\n")
