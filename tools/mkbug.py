#!/usr/bin/env python3
"""mkbug.py SPEC.py...: makes /verif/seeded/<id> from a specification and confirms it.

A specification is a Python file with: id, prop, edits = [(file, old, new[, k])],
pkg (directory of the demonstration), test (Go source), needs, breaks.
Works on a scratch copy of /repo (SCRATCH below); /repo itself is not changed."""
import sys, os, subprocess, json, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/mkbug"
REPO = SCRATCH + "/repo"
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOWORK="off", GOTOOLCHAIN="local", GOSUMDB="off")
DEMO = '''#!/bin/bash
# runs the demonstration inside package %(pkg)s of the tree in the current directory
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
work="$(mktemp -d)" || exit 2
trap 'rm -rf "$work"' EXIT
printf '{"Replace":{"%%s/%%s":"%%s"}}' "$PWD" "%(pkg)s/zz_demo_test.go" "$here/demo.go.txt" >"$work/ov.json"
mkdir "$work/tmp"
TMPDIR="$work/tmp" go test -overlay "$work/ov.json" -vet=off -count=1 -timeout 120s %(flags)s -run '^TestZZ' "./%(pkg)s"
'''
def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, errors="replace", env=ENV, **k)
def tests():
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if "stable" in json.load(open("/opt/vp/BASELINE.json")) else None
    os.makedirs(SCRATCH + "/tmp", exist_ok=True)
    r = subprocess.run(["go", "test", "-vet=off", "-count=1", "-p", "1", "-timeout", "3m", "./..."], cwd=REPO, capture_output=True, text=True, env=dict(ENV, TMPDIR=SCRATCH + "/tmp"))
    return r.returncode == 0, r.stdout[-1500:] + r.stderr[-500:]
def demo(d):
    return sh("bash", d + "/demo.sh", cwd=REPO)
def one(spec):
    s = runpy.run_path(spec)
    if os.path.exists(SCRATCH): shutil.rmtree(SCRATCH)
    os.makedirs(SCRATCH)
    subprocess.check_call(["git", "clone", "-q", "/repo", REPO])
    d = SCRATCH + "/out"; os.makedirs(d)
    open(d + "/demo.go.txt", "w").write(s["test"])
    open(d + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"], "flags": s.get("flags", "")})
    os.chmod(d + "/demo.sh", 0o755)
    r = demo(d)
    if r.returncode != 0:
        print(s["id"], "DEMO FAILS ON UNCHANGED:", r.stdout[-1500:], r.stderr[-800:]); return 1
    for e in s["edits"]:
        f, old, new = e[:3]; k = e[3] if len(e) > 3 else 0
        t = open(REPO + "/" + f).read()
        if t.count(old) <= k: print(s["id"], "NO MATCH", f, old); return 1
        p = t.split(old)
        open(REPO + "/" + f, "w").write(old.join(p[:k+1]) + new + old.join(p[k+1:]))
    # original lines only
    diff = sh("git", "diff", cwd=REPO).stdout
    b = sh("go", "build", "./...", cwd=REPO)
    if b.returncode: print(s["id"], "BUILD", b.stderr); return 1
    ok, out = tests()
    if not ok: print(s["id"], "TESTS FAIL", out); return 1
    r = demo(d)
    if r.returncode == 0: print(s["id"], "DEMO PASSES WITH PATCH"); return 1
    if "build failed" in r.stdout: print(s["id"], "DEMO DOES NOT BUILD", r.stdout, r.stderr); return 1
    base = sh("git", "rev-list", "--max-parents=0", "HEAD", cwd=REPO).stdout.strip().split()[0]
    removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
    files = sorted({e[0] for e in s["edits"]})
    orig = "\n".join(sh("git", "show", base + ":" + f, cwd=REPO).stdout for f in files).splitlines()
    new = [l for l in removed if l.strip() and l not in orig]
    note = ""
    if new: note = " NOT ORIGINAL LINES: %r" % new
    D = ROOT + "/seeded/" + s["id"]
    if os.path.exists(D): shutil.rmtree(D)
    os.makedirs(D)
    open(D + "/patch.diff", "w").write(diff)
    for f in ("demo.sh", "demo.go.txt"): shutil.copy(d + "/" + f, D)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(D + "/meta.json", "w"), indent=1)
    res = ""
    if os.path.exists("/tmp/an"):
        os.makedirs(SCRATCH + "/root", exist_ok=True)
        shutil.copy(ROOT + "/known-findings.txt", SCRATCH + "/root/")
        r = sh("/tmp/an", "-check", s["prop"], "-repo", REPO, "-root", SCRATCH + "/root")
        res = "check exit %d: %s" % (r.returncode, "; ".join(l[:160] for l in r.stdout.splitlines() if not l.startswith("KNOWN") and not l.startswith("      "))[:300])
    print(s["id"], "OK", note, res)
    return 0
rc = 0
for f in sys.argv[1:]: rc |= one(f)
sys.exit(rc)
