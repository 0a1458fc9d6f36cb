#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'old' 'new' 'needs' 'breaks' < demo.cpp : writes seeded/ID from a one-place edit (several: old/new separated by @@@, FILE may be a@@@b)."""
import sys, os, subprocess, json
V = "/verif"
id, prop, files, old, new, needs, breaks = sys.argv[1:8]
demo = sys.stdin.read()
fs = files.split("@@@"); os_ = old.split("@@@"); ns = new.split("@@@")
if len(fs) == 1: fs = fs * len(os_)
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
try:
    for f, o, n in zip(fs, os_, ns):
        p = os.path.join("/repo", f); s = open(p).read()
        assert s.count(o) == 1, (f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    d = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
D = os.path.join(V, "seeded", id); os.makedirs(D, exist_ok=True)
open(D + "/patch.diff", "w").write(d)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
py = demo.lstrip().startswith("#py")
if py:
    open(D + "/demo.py", "w").write(demo)
    sh = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH=$PWD/pylibamazed/python PYTHONDONTWRITEBYTECODE=1 exec /opt/vp/venv/bin/python "$D/demo.py"
'''
else:
    open(D + "/demo.cpp", "w").write(demo)
    sh = '''#!/bin/bash
# compiles the demonstration against the library just built; exit 0 when the property holds
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -O1 -w -I RedshiftLibrary -isystem /usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -L _build -lcpf-redshift -Wl,-rpath,"$PWD/_build" \\
  -lboost_filesystem -lboost_system -lboost_thread -lboost_chrono -lcfitsio -lfftw3 -lopenblas -lgsl -lgslcblas -lpthread
"$T/demo"
'''
open(D + "/demo.sh", "w").write(sh); os.chmod(D + "/demo.sh", 0o755)
print(d)
