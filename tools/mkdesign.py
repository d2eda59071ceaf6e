#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text below, and one section per property from
properties.jsonl, MANIFEST.json, the last evidence files, known-findings.txt and seeded/."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
man = json.load(open(root + "/MANIFEST.json"))
chk = {c["property"]: c for c in man["checks"]}
na = {n["property"]: n["reason"] for n in man["not_applicable"]}
kf = [l.strip() for l in open(root + "/known-findings.txt") if l.strip() and not l.startswith("#")]
caught = {}
cp = root + "/tools/caught.json"
if os.path.exists(cp): caught = json.load(open(cp))
seeds = {}
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    seeds[os.path.basename(os.path.dirname(d))] = json.load(open(d))
o = []
w = o.append
w(open(root + "/tools/design_head.md").read().rstrip())
w("\n## 5. The properties, one by one\n")
w("Each section gives the statement in short (full text: properties.jsonl), where it is anchored, why tests")
w("cannot settle it, and the rule that decides it. `size` is what the last run looked at on the unchanged tree.\n")
for p in props:
    i = p["id"]
    w("### %s %s\n" % (i, p["title"]))
    a = p["anchors"]
    w("*Anchors:* " + ", ".join(a["files"]) + ("; " + "; ".join(m["name"] for m in a.get("mechanism", [])) if a.get("mechanism") else "") + ".  ")
    w("*Quantified over:* " + p["quantifier"]["text"] + ". *Why not tests:* " + p["why_tests_cant"] + ".\n")
    if i in chk:
        w("*Technique:* " + chk[i]["technique"] + ".\n")
        w(chk[i]["level_note"] + "\n")
        try:
            c = json.load(open(root + "/evidence/%s.json" % i))["coverage"]
            w("*Size:* %d functions, %d obligations, %d abstract paths, %d loops, %.0f s." % (c.get("functions_analysed", 0), c.get("obligations", 0), c.get("abstract_paths", 0), c.get("loops_solved", 0), c.get("wall_s", 0)))
        except Exception: pass
        own = [s for s, m in seeds.items() if m["property"] == i]
        if own: w("*Planted:* " + ", ".join("`%s`" % s for s in own) + ".")
        w("")
    else:
        w("**Not applicable.** " + na[i] + "\n")
w("## 6. Genuine defects found\n")
w("Every entry was first confirmed against the real code (a small program or an in-package test in a scratch")
w("directory). Repairs are the `fix:` commits of /repo; the one that is not small is a known finding.\n")
for l in kf:
    w("* " + l)
w("\n## 7. Planted bugs and what catches them\n")
w("Each was written from the statement of its property, compiles, passes the stable tests, and has a")
w("demonstration that fails only with it (`tools/mkbug.py` confirms all of that). `tools/trybugs.py` applies each one")
w("to a scratch copy and runs all checks; the last column is what it found.\n")
w("| planted bug | property | needs | caught by |\n|---|---|---|---|")
for s, m in seeds.items():
    w("| %s | %s | %s | %s |" % (s, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(s, ["(not run yet)"])) or "**none**"))
open(root + "/DESIGN.md", "w").write("\n".join(o) + "\n")
