#!/usr/bin/env python3
"""Writes DESIGN.md: the prose below, the measured figures of evidence/ and the planted bugs of seeded/ (with tools/seed_results.json)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(V + "/tools/design_head.md").read()
PROPS = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
text = {}
cur = None
for l in open(V + "/tools/design_props.md"):
    if l.startswith("@"):
        cur = l[1:].strip(); text[cur] = ""
    else:
        text[cur] += l
miss = sorted(set(PROPS) - set(text))
assert not miss, miss
figures = {f["property"]: f for f in map(lambda p: json.load(open(p)), glob.glob(V + "/evidence/C*.json"))}
saved = V + "/tools/figures.json"
old = json.load(open(saved)) if os.path.exists(saved) else {}
for p, f in figures.items():
    if f["violations"] == 0 or f["violations"] == []:
        old.setdefault(p, {})[f["tier"]] = [len(f["coverage"]["scenarios"]), f["coverage"]["traces_validated_against_impl"], f["coverage"]["states"], f["coverage"]["transitions"], round(f["wall_s"])]
json.dump(old, open(saved, "w"), indent=0, sort_keys=True)
res = V + "/tools/seed_results.json"
results = json.load(open(res)) if os.path.exists(res) else {}
o = [HEAD, "\n## Per property\n"]
for p in sorted(PROPS):
    o.append("### %s %s\n" % (p, PROPS[p]["title"]))
    o.append(text[p].strip() + "\n")
    for tier, v in sorted(old.get(p, {}).items()):
        o.append("*Measured, %s:* %d scenarios, %d executions of the real code, %d distinct states, %d transitions, %d s.\n" % (tier, *v))
o.append("## Planted bugs\n\nEach is in seeded/<id>/ (patch, demonstration, what it needs). `tools/testseeds.py` applies each to a scratch clone and runs the check of its property; `--baseline` runs the stable tests with it applied (all pass).\n")
o.append("| id | property | caught by (first report of the check) |\n|---|---|---|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    o.append("| %s | %s | %s |" % (n, m["property"], results.get(n, "not recorded").replace("|", "\\|")))
o.append("\n" + open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(o))
