#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the single list below and bin/config.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, V + "/bin"); sys.path.insert(0, V + "/tools")
import config
from proplist import P, NA
from design_props import SEEN
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["all"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p.get("observe", []), "hook_needed": None}}
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        lv = c.get("level", "proof")
        d = {"property": i, "quick_cmd": f"python3 bin/check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check.py {i}",
             "technique": c.get("technique", "Verus contracts on functions extracted from /repo on each run; concrete cases on the compiled crate give the failing input"),
             "level": lv, "level_note": p["note"]}
        if c.get("theorems"): d["theorems"] = c["theorems"]
        checks.append(d)
    else:
        na.append({"property": i, "reason": NA[i]})
json.dump({"version": 1, "setup_cmd": "python3 bin/check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the verifier works on text extracted from the working tree and the concrete cases use the public API. fix: commits are listed in known_findings.json."}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

from design_props import D
t = open(V + "/tools/DESIGN.in.md").read()
props = []
for p in P:
    props.append(f"### {p['id']} {p['title']}\n" + (D[p['id']] if p['id'] in config.PROPS else "Not applicable: " + NA[p['id']]) + "\n")
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"* `{d}` ({m['property']}): {m['what_it_breaks']} Needs: {m['needs']}" + (" " + SEEN[d] if d in SEEN else ""))
open(V + "/DESIGN.md", "w").write("<!-- rendered by tools/gen.py from tools/DESIGN.in.md, tools/design_props.py and seeded/*/meta.json -->\n" + t.replace("@@PROPS@@", "\n".join(props)).replace("@@SEEDS@@", "\n".join(rows)))
