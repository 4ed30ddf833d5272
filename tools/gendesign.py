#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_text.py, properties.jsonl, claims.py, seeded/ and known-findings.json."""
import json, glob, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
sys.path.insert(0, "tools")
from claims import CLAIMS, NA
from design_text import HEAD, HOW, TAIL
props = [json.loads(l) for l in open("properties.jsonl")]
seeds = {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
out = [HEAD.strip(), ""]
out += ["## The properties, one by one", ""]
for p in props:
    i = p["id"]
    out += ["### %s. %s" % (i, p["title"]), ""]
    if i in NA:
        out += ["Not applicable. " + NA[i], ""]
        continue
    how, outside, cost = HOW[i]
    c = CLAIMS[i]
    out += ["*Decided by.* " + how, "",
            "*Bounds.* " + c["note"] + " Quick: " + c["quick"] + ". Thorough: " + c["thorough"] + ".", "",
            "*Outside.* " + outside, "",
            "*Cost.* " + cost + " (quick, alone on 8 cores).", ""]
    if i in seeds:
        out += ["*Planted changes.* " + ", ".join("`%s`" % n for n, _ in seeds[i]) + ".", ""]
out += ["## Planted changes", "",
        "Each is in `seeded/<id>/` with a demonstration; all are caught by the check of their property (quick tier, exit 1 with a VIOLATION "
        "line whose replay reproduces on the compiled code) unless the last column says otherwise.", "",
        "| change | property | what it needs | what it breaks | caught by |", "|---|---|---|---|---|"]
for i in sorted(seeds):
    for n, m in seeds[i]:
        cell = lambda s: " ".join(s.split()).replace("|", "\\|")
        out.append("| %s | %s | %s | %s | %s |" % (n, i, cell(m["needs"]), cell(m["what_it_breaks"]), m.get("caught_by", i)))
out += ["", "## Defects found in samuel/go-dsp", "",
        "All were small enough to repair; each repair is one `fix:` commit in /repo and an entry in known-findings.json. There is no unrepaired finding.", ""]
for f in json.load(open("known-findings.json"))["findings"]:
    out.append("* %s (%s): %s" % (f["property"], f["commit"], f["what"]))
out += ["", TAIL.strip(), ""]
open("DESIGN.md", "w").write("\n".join(out))
