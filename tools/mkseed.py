"""Used to write seeded/<id>: mkseed.seed(id, prop, [(file, old, new)], demo files, needs, breaks)."""
import difflib
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = '''import os
import sys
from unittest.mock import MagicMock

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
for _m in ("pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap", "pyrobust", "pysfm"):
    sys.modules["opensfm." + _m] = MagicMock()
'''


def seed(sid, prop, edits, demo, needs, breaks, cc=None):
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    patch, byfile = "", {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        a = open(os.path.join("/repo", f)).read()
        b = a
        for old, new in es:
            assert b.count(old) == 1, (sid, f, b.count(old), old)
            b = b.replace(old, new)
        patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    if cc:
        srcs, libs = cc
        open(os.path.join(d, "demo.cc"), "w").write(demo)
        sh = '''#!/bin/bash
# run with cwd /repo
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf -- "$tmp"' EXIT
S=opensfm/src
inc="-I$S -I$S/third_party/akaze/lib -I$S/third_party/vlfeat -I/usr/include/eigen3 -I/usr/include/opencv4"
pids=()
for f in %s; do
  g++ -std=c++17 -O1 -w -c $inc "$f" -o "$tmp/$(basename "$f").o" & pids+=($!)
done
g++ -std=c++17 -O1 -w -c $inc "$here/demo.cc" -o "$tmp/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait $p || { echo "does not compile"; exit 3; }; done
g++ "$tmp"/*.o -o "$tmp/demo" %s || exit 3
cd "$tmp" && timeout 60 ./demo
''' % (" ".join("$S/" + x for x in srcs), libs)
    else:
        open(os.path.join(d, "stubs.py"), "w").write(STUBS)
        open(os.path.join(d, "demo.py"), "w").write(demo)
        sh = '''#!/bin/bash
# run with cwd /repo
export PYTHONDONTWRITEBYTECODE=1
exec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
