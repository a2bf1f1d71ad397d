"""tools/show.py PROP [n] [width]: failing steps of the recorded replays (development aid)."""
import json, sys
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 3
w = int(sys.argv[3]) if len(sys.argv) > 3 else 1500
for k in range(n):
    try:
        d = json.load(open(f"/verif/evidence/replays/{prop}-{k}.json"))
    except OSError:
        break
    print(d["case"], d["clauses"])
    print("  ", json.dumps(d["record"].get("record", d["record"]))[:w])
