#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
TECH = "symbolic execution of the Go SSA of /repo; SMT (z3) decides every assertion"
# property -> bound note
CLAIMED = json.load(open(os.path.join(here, "claimed.json")))
NA = json.load(open(os.path.join(here, "not_applicable.json")))
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(line)["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": CLAIMED[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check of it is finished yet")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
