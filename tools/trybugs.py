#!/usr/bin/env python3
"""trybugs.py [ID...]: applies planted bugs to a scratch copy of /repo, one after another, runs all
checks on each and records in tools/caught.json which checks report a violation."""
import json, os, sys, glob, subprocess, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/trybugs"; R = S + "/repo"
an = root + "/.bin/analyzer"
subprocess.check_call([root + "/check.sh", "-build"])
cp = root + "/tools/caught.json"
res = json.load(open(cp)) if os.path.exists(cp) else {}
ids = sys.argv[1:] or [os.path.basename(d) for d in sorted(glob.glob(root + "/seeded/*"))]
checks = [r["ID"] for r in json.loads(subprocess.check_output([an, "-list"]))]
from concurrent.futures import ThreadPoolExecutor
for i in ids:
    if os.path.exists(S): shutil.rmtree(S)
    os.makedirs(S)
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    subprocess.check_call(["git", "apply", root + "/seeded/%s/patch.diff" % i], cwd=R)
    def run(c):
        d = S + "/root-" + c; os.makedirs(d)
        shutil.copy(root + "/known-findings.txt", d)
        p = subprocess.run([an, "-check", c, "-repo", R, "-root", d], capture_output=True, text=True)
        return c, p.returncode
    with ThreadPoolExecutor(6) as ex: out = list(ex.map(run, checks))
    res[i] = [c for c, rc in out if rc == 1]
    odd = [c for c, rc in out if rc not in (0, 1)]
    print(i, res[i], "NO ANSWER " + str(odd) if odd else "")
    json.dump({k: res[k] for k in sorted(res) if os.path.exists(root + "/seeded/" + k)}, open(cp, "w"), indent=1)
shutil.rmtree(S)
