#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the analyzer's own list of checks."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
subprocess.check_call([root + "/check.sh", "-build"])
rows = json.loads(subprocess.check_output([root + "/.bin/analyzer", "-list"]))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
NA = {
 "C51": "Byte-for-byte equality of everything read with everything packed is a statement about runtime contents of arbitrary streams and files; no static argument in reach relates them as a whole. Its decidable parts (extents, positions, table framing, handles) are C04, C07, C12, C14, C22 and C32.",
 "C52": "What survives a power loss depends on the operating system and the disk; the code issues no fsync that an analysis could order, so there is no structural clause to check.",
 "C53": "The code does not promise it: Append rewrites the stream before the table, Rename and PutAlias are separate steps on the table and on the tagset, and a reader sees whichever step came last; what a reader meets is a matter of histories across operations of different goroutines. What the code does promise is decidable and claimed: every single operation on the table is atomic (C01), tables hand out private copies (C21), a split package stays readable while it is extended (C50), writers do not interleave (C02).",
}
ids = {r["ID"] for r in rows}
na = []
for p in props:
    if p["id"] not in ids:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "Not yet claimed: the analysis of this property is not built.")})
m = {
 "version": 1,
 "setup_cmd": "./check.sh -build",
 "checks": [{
    "property": r["ID"],
    "quick_cmd": "./check.sh " + r["ID"],
    "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + r["ID"],
    "evidence_file": "evidence/%s.json" % r["ID"],
    "technique": r["Method"],
    "level": "other",
    "level_note": r["Expl"] + (" Assumes: " + "; ".join(r["Assume"]) + "." if r["Assume"] else ""),
 } for r in rows],
 "not_applicable": na,
 "notes": "All checks are static: /verif/analyzer loads and type-checks the current source of /repo, builds go/ssa and decides each rule by abstract interpretation or dataflow over it. Nothing of /repo is executed. No hooks are needed in /repo. Known findings and fixed defects: known-findings.txt.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
subprocess.check_call(["python3", root + "/tools/mkdesign.py"])
