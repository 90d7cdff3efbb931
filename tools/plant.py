#!/usr/bin/env python3
"""Plant, confirm and try bugs.  Experiments only: no registered check uses this.

plant.py SPECS.py [id ...]   for each spec: build /verif/seeded/<id>/ from a
    scratch copy of /repo, confirm that the tests pass and the demo tells the
    trees apart, then run the property's quick check on the scratch copy.
plant.py --recheck [id ...]  apply seeded patches again, and run their checks.

A spec is a dict: id, property, edits [(file, old, new)], demo (python source),
needs, breaks; optional "also": other properties' checks to run.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile, re

REPO, VERIF = "/repo", "/verif"
PY = "/opt/venv/bin/python"
SEEDED = VERIF + "/seeded"
PRE = '''import os, sys, warnings
sys.path.insert(0, os.getcwd())  # the tree under test
warnings.simplefilter("ignore")
import numpy as np

'''
SH = '''#!/bin/bash
# Exits 0 when the behaviour is right, nonzero otherwise.  Run in the source tree.
exec timeout 280 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''

def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout

def scratch(id):
    d = tempfile.mkdtemp(prefix=f"seed.{id}.", dir="/tmp")
    shutil.copytree(REPO, d + "/repo", symlinks=True)
    return d

def tests(tree):
    base = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = sh([PY, "-m", "pytest", "-q", "-n", "8", "-p", "no:cacheprovider",
                  "--timeout=100", "--rootdir=" + tree], cwd=tree,
                 env={"PYTHONPATH": tree, "PYTHONDONTWRITEBYTECODE": "1",
                      "NUMBA_NUM_THREADS": "1", "OMP_NUM_THREADS": "1"})
    return bool(re.search(r"^27 passed", out, re.M)), out

def check(tree, prop):
    rc, out = sh([PY, "mc/run.py", prop, "quick"], cwd=VERIF,
                 env={"NEUTRALOCEAN_REPO": tree, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
    return rc, [l for l in out.splitlines() if l.startswith("VIOLATION")][:1], out

def blame_ok(tree, patch):
    """Every bug must change or delete a line of the original repository."""
    base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=tree)[1].strip()
    for f, blk in re.findall(r"^--- a/(\S+)\n(?:.*\n)((?:[ @+\-\\].*\n)*)", patch, re.M):
        for m in re.finditer(r"^@@ -(\d+)(?:,\d+)? .*\n((?:[ +\-\\].*\n)*)", blk, re.M):
            n = int(m[1])
            for l in m[2].splitlines():
                if l[0] == "-":
                    b = sh(["git", "blame", "-s", "-l", "-L", f"{n},{n}", "HEAD", "--", f], cwd=tree)[1]
                    if b.split()[0].lstrip("^")[:30] == base[:30]:
                        return True
                if l[0] != "+":
                    n += 1
    return False

def one(spec):
    id = spec["id"]; prop = spec["property"]
    d = scratch(id); tree = d + "/repo"
    try:
        demo = d + "/demo"; os.mkdir(demo)
        open(demo + "/demo.py", "w").write(PRE + spec["demo"].lstrip("\n"))
        open(demo + "/demo.sh", "w").write(SH); os.chmod(demo + "/demo.sh", 0o755)
        rc0, o0 = sh(["bash", demo + "/demo.sh"], cwd=tree)
        if rc0:
            return id, f"BAD demo fails on the unchanged tree rc={rc0}\n" + o0[-1500:]
        for f, old, new in spec["edits"]:
            p = tree + "/" + f; t = open(p).read()
            if t.count(old) != 1:
                return id, f"BAD edit: {t.count(old)} matches in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        patch = sh(["git", "diff", "--no-color"], cwd=tree)[1]
        if not blame_ok(tree, patch):
            return id, "BAD patch changes no original line"
        rc1, o1 = sh(["bash", demo + "/demo.sh"], cwd=tree)
        if rc1 == 0:
            return id, "BAD demo passes with the bug"
        ok, out = tests(tree)
        if not ok:
            return id, "BAD tests fail\n" + out[-600:]
        out_d = f"{SEEDED}/{id}"; shutil.rmtree(out_d, ignore_errors=True)
        shutil.copytree(demo, out_d)
        open(out_d + "/patch.diff", "w").write(patch)
        json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(out_d + "/meta.json", "w"), indent=1, ensure_ascii=False)
        res = []
        for q in [prop] + spec.get("also", []):
            rc, v, o = check(tree, q)
            res.append(f"{q}:{'CAUGHT' if rc == 1 and v else 'missed rc=%d' % rc}")
            if rc not in (0, 1): res.append(o[-800:])
        return id, "planted; " + " ".join(res) + "   demo: " + (o1.strip().splitlines() or ["?"])[-1][:100]
    finally:
        shutil.rmtree(d, ignore_errors=True)

def recheck(id, props=None):
    d = scratch(id); tree = d + "/repo"
    try:
        rc, o = sh(["git", "apply", f"{SEEDED}/{id}/patch.diff"], cwd=tree)
        if rc: return id, "BAD does not apply " + o
        res = []
        for q in props or [json.load(open(f"{SEEDED}/{id}/meta.json"))["property"]]:
            rc, v, o = check(tree, q)
            res.append(f"{q}:{'CAUGHT' if rc == 1 and v else 'missed rc=%d' % rc}")
        return id, " ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--recheck":
        for id in a[1:] or sorted(os.listdir(SEEDED)):
            print(*recheck(id), flush=True)
    else:
        specs = runpy.run_path(a[0])["SPECS"]
        for s in specs:
            if len(a) == 1 or s["id"] in a[1:]:
                try: print(*one(s), flush=True)
                except Exception as e: print(s["id"], "ERROR", repr(e), flush=True)
