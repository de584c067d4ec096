#!/usr/bin/env python3
"""known.py PROPERTY MATCH WHAT: adds a finding to known_findings.json."""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
d = json.load(open(f))
d["findings"].append({"property": sys.argv[1], "match": sys.argv[2], "what": sys.argv[3]})
json.dump(d, open(f, "w"), indent=1)
open(f, "a").write("\n")
