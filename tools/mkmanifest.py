#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/table.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks.table import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 run.py selftest", "checks": [], "not_applicable": [],
     "notes": "Every check compiles /repo's current sources itself (objects cached by content hash in .build), explores generated cases against an independent reference, shrinks a failure to a replay file under .replays (python3 run.py replay FILE) and replays it before reporting it. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i not in CHECKS:
        m["not_applicable"].append({"property": i, "reason": "its check is still being built"})
        continue
    s = CHECKS[i]
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py check %s --tier quick" % i,
        "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
        "technique": s.get("technique", "property-based testing: structured random generation against an independent reference model, with shrinking"
                     + (" and libFuzzer in the thorough tier" if s.get("fuzz") else "")),
        "level": "exploration",
        "level_note": s.get("note", "Generated-input search over builds %s; a bounded random sample of the input space, not a proof." % ", ".join(sorted({v[0] + "/" + v[1] for v in s["variants"]}))),
    })
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(m["checks"]), "checks")
