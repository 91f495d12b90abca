#!/usr/bin/python3
"""Validates a planted bug:  python3 tools/plant.py <seeded id>... [--nocheck]

In a scratch copy of /repo: the demo passes, the patch applies, the stable tests pass, the demo fails, and
what the property's check says.  (vcheck --bug <id> is the authority.)"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/seedrepo"
BUILD = "/tmp/seedbuild"


def sh(cmd, cwd=SCRATCH, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout


def tests():
    ign = " ".join("--ignore=%s/%s" % (SCRATCH, x.strip()) for x in open("/opt/vp/needs_extensions.txt") if x.strip())
    plug = os.path.join(BUILD + "_plug")
    os.makedirs(plug, exist_ok=True)
    s = open("/opt/vp/pyplugin/opensfm_without_extensions.py").read().replace('"/repo"', '"%s"' % SCRATCH)
    open(os.path.join(plug, "opensfm_without_extensions.py"), "w").write(s)
    rc, out = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p opensfm_without_extensions --noconftest "
                 "--continue-on-collection-errors %s 2>&1 | tail -3" % ign,
                 env={"PYTHONPATH": plug, "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1"})
    return out.strip().split("\n")[-1]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    if not os.path.isdir(SCRATCH):
        shutil.copytree("/repo", SCRATCH, symlinks=True, ignore=shutil.ignore_patterns("cmake_build"))
    sh("git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD" % (SCRATCH, SCRATCH), cwd="/")
    for sid in args:
        d = os.path.join(VERIF, "seeded", sid)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = "/tmp/seeddemo"
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.copytree(d, tmp)
        res = [sid, meta["property"]]
        rc, out = sh("bash %s/demo.sh" % tmp)
        res.append("clean demo %s" % ("ok" if rc == 0 else "FAILS(%d)\n%s" % (rc, out[-1500:])))
        rc, out = sh("git apply %s/patch.diff" % d)
        if rc:
            print(sid, "patch does not apply", out)
            continue
        try:
            if ".cc" not in open(os.path.join(d, "patch.diff")).read():
                res.append(tests())
            rc, out = sh("bash %s/demo.sh" % tmp)
            res.append("patched demo %s" % ("FAILS to fail\n" + out[-800:] if rc == 0 else "ok (%d) %s" % (rc, out.strip().split("\n")[-1][:150])))
            if "--nocheck" not in sys.argv:
                rc, out = sh("%s/tools/run %s" % (VERIF, meta["property"]), env={"VERIF_REPO": SCRATCH, "VERIF_BUILD": BUILD, "VERIF_SEED": "1"})
                hit = "VIOLATION property=%s" % meta["property"] in out
                res.append("CAUGHT" if rc == 1 and hit else "MISSED rc=%d" % rc)
                rp = os.path.join(VERIF, "tools", "seed_results.json")
                known = json.load(open(rp)) if os.path.exists(rp) else {}
                known[sid] = meta["property"] if rc == 1 and hit else "missed"
                json.dump(known, open(rp, "w"), indent=1, sort_keys=True)
                res.append("\n".join(x[:300] for x in out.strip().split("\n") if x.startswith("  [") or "seconds" in x or x.startswith("C"))[:1200])
        finally:
            sh("git checkout -q -- .")
        print(" | ".join(res), flush=True)


main()
