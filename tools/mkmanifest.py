"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = "bounded-exhaustive enumeration of programs and inputs run through the real compiler and runtime, compared with a reference model"
MODEL = "explicit-state breadth-first search of a reference model, every transition replayed on the real compiler and runtime"
NOTE = "Exhaustive within the stated alphabet and bounds; trusts the Python reference model, the host LLVM and libc. Nothing is claimed outside the bounds."
CLAIMED = {}  # id -> (technique, level, note)
exec(open(V + "/tools/claims.py").read())
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 mc/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, lv, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 mc/check.py %s quick" % i, "thorough_cmd": "python3 mc/check.py %s thorough" % i,
                            "technique": t, "level": lv, "level_note": note + " " + NOTE})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claimed")
