#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/meta.py)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over schedules%s, outcome checked against a sequential reference model"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note, faults="", observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=level_note, faults=faults, observe=observe or ["return values of the toolbox functions"], state=state or [], na=na))
exec(open(os.path.join(root, "tools", "table.py")).read())
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
          "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
          "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                      "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                      "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "./sim/build.sh cpu",
     "hooks": {"guard": "none", "enable": "no hooks were added to /repo: every seam is a compiler callback or a link-time interposition in /verif/sim", "source_commits": []},
     "checks": [{"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"], "thorough_cmd": "./check.sh %s thorough" % p["id"],
                 "technique": T % p["faults"], "level": "exploration", "level_note": p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(m["checks"]), "checks")

# tables of DESIGN.md that follow from other files
import re, glob
d = open(os.path.join(root, "DESIGN.md")).read()
def fill(name, text):
    global d
    d = re.sub("<!-- %s -->.*?<!-- end -->" % name, lambda m: "<!-- %s -->\n%s\n<!-- end -->" % (name, text), d, flags=re.S)
rows = ["| property | commit | what failed |", "|---|---|---|"]
for l in open(os.path.join(root, "KNOWN_FINDINGS.txt")):
    g = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if g: rows.append("| %s | %s | %s |" % g.groups())
fill("fixes", "\n".join(rows))
found = json.load(open(os.path.join(root, "tools", "found.json")))
rows = ["| change | property | what it breaks | what it needs | quick check |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f)); j = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"], j["needs"], found.get(i, "not run")))
if len(rows) > 2: fill("seeded", "\n".join(rows))
open(os.path.join(root, "DESIGN.md"), "w").write(d)
