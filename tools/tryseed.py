#!/usr/bin/env python3
"""tryseed.py [-n] ID... : each planted bug in a scratch copy: applies, builds, stable tests pass, demo fails; then the check (unless -n)
against the scratch copy (VERIF_REPO)."""
import sys, os, subprocess, json, shutil, tempfile
V = "/verif"
args = [a for a in sys.argv[1:] if a != "-n"]
nochk = "-n" in sys.argv
r = lambda c, **k: subprocess.run(c, capture_output=True, text=True, **k)
base = json.load(open("/opt/vp/BASELINE.json"))
for i in args:
    D = "%s/seeded/%s" % (V, i)
    meta = json.load(open(D + "/meta.json"))
    assert r(["git", "-C", "/repo", "status", "--porcelain"]).stdout == "", "dirty /repo"
    res = [i]
    d0 = r(["bash", D + "/demo.sh"], cwd="/repo")
    res.append("clean demo %d" % d0.returncode)
    if d0.returncode: print(d0.stdout[-800:], d0.stderr[-800:])
    a = r(["git", "-C", "/repo", "apply", D + "/patch.diff"])
    if a.returncode:
        print(i, "does not apply", a.stderr); continue
    try:
        b = r(["bash", "/opt/vp/build.sh"])
        res.append("build %d" % b.returncode)
        if b.returncode == 0:
            r(["bash", "/opt/vp/test.sh", "/tmp/seedtest.json"])
            o = json.load(open("/tmp/seedtest.json"))
            m = sorted(set(base["stable"]) - set(o["passed"]))
            res.append("broken tests %d %s" % (len(m), m[:4]))
            d1 = r(["bash", D + "/demo.sh"], cwd="/repo")
            res.append("demo with bug %d" % d1.returncode)
            if d1.returncode == 0 or "error" in d1.stderr: print(d1.stdout[-500:], d1.stderr[-500:])
            if not nochk:
                c = r(["python3-vt", "run_check.py", meta["property"]], cwd=V)
                l = [x for x in c.stdout.splitlines() if "VIOLATION" in x or "NOT DEC" in x or "failed" in x.lower()]
                res.append("check %d %s" % (c.returncode, l[:4]))
    finally:
        r(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    print(" | ".join(res), flush=True)
r(["bash", "/opt/vp/build.sh"])
