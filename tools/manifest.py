#!/usr/bin/env python3
# writes /verif/MANIFEST.json: python3 tools/manifest.py
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, note = CLAIMS[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "./run.sh " + i,
                       "technique": t, "level": "other", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "One analyzer (analyzer/, Go, go/ssa with vendored x/tools) decides every claimed property from the source of /repo's working tree; nothing of /repo is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not applicable")
