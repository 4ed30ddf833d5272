#!/usr/bin/env python3
"""kf.py PROP COMMIT WHAT: record a repaired defect in known-findings.json."""
import json, sys
p, c, w = sys.argv[1:4]
f = "/verif/known-findings.json"
d = json.load(open(f))
k = [k for k in d if isinstance(d[k], list)][0]
d[k].append({"status": "fixed", "property": p, "commit": c, "what": w, "line": f"fixed: property={p} {c} {w}"})
open(f, "w").write(json.dumps(d, indent=1) + "\n")
