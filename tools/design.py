#!/usr/bin/env python3
"""design.py: writes DESIGN.md from its parts."""
import glob, json, os
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
R = lambda p: open(os.path.join(here, p)).read()
how = json.loads(R("design.json")); claimed = json.loads(R("claimed.json")); na = json.loads(R("not_applicable.json"))
known = json.load(open(root + "/known_findings.json"))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
out = [R("design_head.md").rstrip() + "\n\n## 3. Properties\n"]
for p in props:
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    if i in claimed:
        out.append(f"*How.* {how[i]}\n\n*Bounds.* {claimed[i]}.\n")
        k = [f["what"] for f in known["findings"] if f["property"] == i]
        if k:
            out.append("*Known findings.*\n" + "\n".join(f"- {x}" for x in k) + "\n")
        f = [x.split(" ", 2)[2] for x in known["fixed"] if f"property={i} " in x]
        if f:
            out.append("*Repaired.*\n" + "\n".join(f"- `{x.split(' ',1)[0]}` {x.split(' ',1)[1]}" for x in f) + "\n")
    else:
        out.append(f"*Not applicable.* {na.get(i, 'no check yet')}\n")
out.append("## 4. Planted bugs\n\nEach was confirmed with `tools/tryseed.sh` (demo passes on the tree, fails with the patch, stable tests pass).\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(root + "/seeded/*/")):
    m = json.load(open(d + "meta.json")); n = os.path.basename(d[:-1])
    out.append(f"| {n} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
out.append("\n" + R("design_tail.md"))
open(root + "/DESIGN.md", "w").write("\n".join(out))
