#!/usr/bin/env python3
"""Writes MANIFEST.json and bounds.json from the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(here, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na, bounds = [], [], {}
for p in props:
    if p in CLAIMS:
        c = CLAIMS[p]
        checks.append(dict(property=p, quick_cmd="./check.sh " + p,
            thorough_cmd="VERIF_TIER=thorough ./check.sh " + p,
            technique=c.get("technique", TECH), level="model_checking",
            level_note=c["note"] + " " + TRUST))
        bounds[p] = dict(quick=c["quick"], thorough=c["thorough"])
    else:
        na.append(dict(property=p, reason=NA.get(p, "Not claimed yet: its harness is not built.")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na, notes=NOTES)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
json.dump(bounds, open(os.path.join(here, "bounds.json"), "w"), indent=1)
