#!/usr/bin/python3
"""Builds the C++ extension modules from /repo's current working tree.

Mirrors /repo/opensfm/src by content into build/opensfm/src (a file's time stamp
changes only when its content does, so that ninja rebuilds exactly what a change
needs) and compiles the repository's own sources and bindings there against
minipybind.  The modules land in build/opensfm/*.so; the python code is never
copied: it is imported from /repo (see tools/boot.py).
"""
import fcntl
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SRC = os.path.join(REPO, "opensfm", "src")
MIRROR = os.path.join(BUILD, "opensfm", "src")
CM = os.path.join(BUILD, "cmake")
MODULES = ["pybundle", "pydense", "pyfeatures", "pygeo", "pygeometry", "pymap", "pyrobust", "pysfm"]
NUMPY_INC = "/opt/venv/lib/python3.12/site-packages/numpy/_core/include"


def _files(root):
    out = {}
    for d, dirs, fs in os.walk(root):
        dirs[:] = [x for x in dirs if x not in (".git", "test")]
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = p
    return out


def strip_comments(text):
    """C/C++ source without its comments (newlines kept, none at the end), so that
    an edit that touches comments only rebuilds nothing."""
    out, i, n = [], 0, len(text)
    while i < n:
        c = text[i]
        if c == "/" and text[i + 1:i + 2] == "/":
            while i < n and text[i] != "\n":
                if text[i] == "\\" and text[i + 1:i + 2] == "\n":
                    out.append("\n")
                    i += 1
                i += 1
        elif c == "/" and text[i + 1:i + 2] == "*":
            j = text.find("*/", i + 2)
            j = n if j < 0 else j + 2
            out.append(" " + "\n" * text.count("\n", i, j))
            i = j
        elif c == '"' and i and text[i - 1] == "R" and not (i > 1 and (text[i - 2].isalnum() or text[i - 2] == "_")):
            k = text.find("(", i)
            end = ")" + text[i + 1:k] + '"'
            j = text.find(end, k)
            j = n if j < 0 else j + len(end)
            out.append(text[i:j])
            i = j
        elif c == '"' or (c == "'" and not (i and (text[i - 1].isalnum() or text[i - 1] == "_"))):
            j = i + 1
            while j < n and text[j] != c and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    lines = [x.rstrip() for x in "".join(out).split("\n")]
    return "\n".join(lines).rstrip() + "\n"


def mirror(src, dst, strip=False):
    os.makedirs(dst, exist_ok=True)
    want, have = _files(src), _files(dst)
    changed = []
    for rel in have:
        if rel not in want:
            os.unlink(have[rel])
            changed.append(rel)
    for rel, p in want.items():
        q = os.path.join(dst, rel)
        with open(p, "rb") as f:
            data = f.read()
        if strip and rel.endswith((".cc", ".h", ".c", ".cpp", ".hpp")):
            try:
                data = strip_comments(data.decode("utf-8")).encode("utf-8")
            except UnicodeDecodeError:
                pass
        if rel in have:
            with open(q, "rb") as f:
                if f.read() == data:
                    continue
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(q, "wb") as f:
            f.write(data)
        changed.append(rel)
    return changed


def build(verbose=False):
    """Returns (ok, log, seconds)."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        mirror(SRC, MIRROR, strip=True)
        mirror(os.path.join(VERIF, "minipybind"), os.path.join(BUILD, "minipybind"))
        mirror(os.path.join(VERIF, "native"), os.path.join(BUILD, "native"))
        env = {k: v for k, v in os.environ.items()
               if k not in ("CC", "CXX", "CFLAGS", "CXXFLAGS", "LDFLAGS", "CMAKE_GENERATOR")}
        env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        log = ""
        conf = [
            "cmake", "-G", "Ninja", "-S", MIRROR, "-B", CM,
            "-DCMAKE_BUILD_TYPE=Release", "-DOPENSFM_BUILD_TESTS=OFF",
            "-DCMAKE_CXX_FLAGS_RELEASE=-O1 -DNDEBUG", "-DCMAKE_C_FLAGS_RELEASE=-O2 -DNDEBUG",
            "-DCMAKE_C_COMPILER=/usr/bin/gcc", "-DCMAKE_CXX_COMPILER=/usr/bin/g++",
            "-DCMAKE_PROJECT_opensfm_INCLUDE=" + os.path.join(VERIF, "tools", "with_minipybind.cmake"),
            "-DMPB_INCLUDE=" + os.path.join(BUILD, "minipybind"),
            "-DMPB_PYTHON_INCLUDE=/usr/include/python3.12",
            "-DMPB_NUMPY_INCLUDE=" + NUMPY_INC,
        ]
        if not os.path.exists(os.path.join(CM, "build.ninja")):
            p = subprocess.run(conf, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            log += p.stdout
            if p.returncode:
                return False, log, time.time() - t0
        p = subprocess.run(["cmake", "--build", CM, "-j", str(os.cpu_count()), "--target"] + MODULES,
                           env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        log += p.stdout
        return p.returncode == 0, log, time.time() - t0


if __name__ == "__main__":
    ok, log, secs = build()
    sys.stdout.write(log if (not ok or "-v" in sys.argv) else "")
    print("build %s in %.1f s" % ("ok" if ok else "FAILED", secs))
    sys.exit(0 if ok else 1)
