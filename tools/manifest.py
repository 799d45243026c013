#!/usr/bin/env python3
"""Writes MANIFEST.json: every property in properties.jsonl that has a check in go/checks."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
src = "".join(open(V + "/go/checks/" + f).read() for f in os.listdir(V + "/go/checks") if f.startswith("c"))
lev = dict(re.findall(r'Check\{ID: "(C\d+)", Level: "(\w+)"', src))
tech = json.load(open(V + "/tools/technique.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in lev and i in tech:
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "technique": tech[i][0], "level": lev[i], "level_note": tech[i][1]})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All checks build a worker from /repo's working tree (go build -overlay, nothing is written in /repo) and run the real main(); see DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
