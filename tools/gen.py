#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from one table.
import json, os, sys
from table import P, TECH, NOTE
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        mech = [{"name": n, "where": w} for n, w in p["mech"]]
        d = {"id": p["id"], "title": p["title"], "statement": p["st"],
             "quantifier": {"over": p["over"], "text": p["q"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": mech, "observe_at": p.get("obs", [])}}
        if "state" in p:
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p.get("na"):
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh " + p["id"],
                   "thorough_cmd": "bash check.sh " + p["id"],
                   "technique": p.get("tech", TECH), "level": p.get("level", "proof"),
                   "level_note": p.get("lnote") or p.get("note", "") + NOTE})
m = {"version": 1,
     "setup_cmd": "bash setup.sh",
     "checks": checks, "not_applicable": na,
     "notes": "One checker (checker/, Go, dependencies vendored) type-checks /repo, builds its SSA form and interprets it abstractly; nothing of /repo is run. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
