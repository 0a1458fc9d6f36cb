#!/bin/bash
# builds the extractor, the library objects used by the native harnesses, and the harnesses
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ ! -x build/cxx2ir ] || [ tools/cxx2ir/cxx2ir.cpp -nt build/cxx2ir ]; then
  bash tools/cxx2ir/build.sh "$PWD/build/cxx2ir"
fi
python3-vt - <<'PY'
import sys, glob, os
sys.path.insert(0, '.')
from vc import native
from concurrent.futures import ThreadPoolExecutor
ar, err, n = native.build_lib(8)
if ar is None:
    print(err); sys.exit(1)
names = sorted(os.path.basename(p)[:-4] for p in glob.glob('native/*.cpp'))
with ThreadPoolExecutor(8) as ex:
    for nm, (exe, e) in zip(names, ex.map(lambda x: native.build_harness(x, ar), names)):
        if exe is None:
            print(nm, e); sys.exit(1)
print("setup: %d objects compiled, %d harnesses" % (n, len(names)))
PY
