#!/usr/bin/python3
"""Mutation testing of the checks for C++:  python3 tools/mutatecc.py C30[,C29] dense/src/depthmap.cc[:from-to] ... [--jobs N] [--max N] [--seed S]

Like tools/mutate.py, for files under opensfm/src: text changes, one at a time, in scratch copies of /repo that are each
built apart.  Used while building, by no registered command."""
import os
import queue
import random
import re
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
from build import strip_comments  # noqa: E402

OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "),
       (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" \+= ", " -= "), (r" -= ", " += "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"std::max\b", "std::min"), (r"std::min\b", "std::max"), (r"\bcos\(", "sin("), (r"\bsin\(", "cos("),
       (r"\bbreak;", ";"), (r"\bcontinue;", ";"), (r"(?<=[(,=] )-(?=\w)", ""), (r"(?<=[(,])-(?=\w)", ""), (r"\(!", "("), (r"\.inverse\(\)", ""), (r"\.transpose\(\)", "")]
SKIP = re.compile(r"^\s*(#|template|using|static_assert|throw|CHECK|typedef|class |struct |namespace|enum|std::cerr|std::cout|case )")


def mutants(path, lo, hi):
    lines = strip_comments(open(path).read()).split("\n")
    out = []
    for i, ln in enumerate(lines):
        if (lo and i + 1 < lo) or (hi and i + 1 > hi) or SKIP.match(ln) or "runtime_error" in ln:
            continue

        def add(new, what):
            out.append(("%d %s" % (i + 1, what), lines[:i] + [new] + lines[i + 1:]))
        for pat, rep in OPS:
            for m in re.finditer(pat, ln):
                add(ln[:m.start()] + rep + ln[m.end():], "%r -> %r: %s" % (m.group(), rep, ln.strip()[:100]))
        for m in re.finditer(r"(?<![\w.<\"])(\d+)(?![\w.\"])", ln):
            add(ln[:m.start()] + str(int(m.group()) + 1) + ln[m.end():], "%s + 1: %s" % (m.group(), ln.strip()[:100]))
        for m in re.finditer(r"(?<![\w.])\d+\.\d*(e-?\d+)?f?", ln):
            v = m.group().rstrip("f")
            add(ln[:m.start()] + "%r" % (float(v) * 1.5 if float(v) else 1.0) + ("f" if m.group().endswith("f") else "") + ln[m.end():], "%s * 1.5: %s" % (v, ln.strip()[:100]))
        prev = lines[i - 1].rstrip() if i else ""
        if re.match(r"^\s+[\w.\->\[\]()]+(\(.*\)| [-+*]?= .*);$", ln) and prev.endswith(("{", "}", ";", ":")) and not re.match(r"^\s*(return|const |auto|delete)", ln):
            add("", "deleted: " + ln.strip()[:100])
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\) \{)$", ln)
        if m:
            add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negated: " + ln.strip()[:100])
            add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "always: " + ln.strip()[:100])
    return out


def main():
    args = sys.argv[1:]
    opt = {"--jobs": 2, "--max": 60, "--seed": 1}
    for k in opt:
        if k in args:
            i = args.index(k)
            opt[k] = int(args[i + 1])
            del args[i:i + 2]
    pids, specs = args[0].split(","), args[1:]
    todo = []
    for s in specs:
        f, _, r = s.partition(":")
        lo, hi = (int(x) for x in r.split("-")) if r else (0, 0)
        todo += [(f, w, src) for w, src in mutants(os.path.join("/repo/opensfm/src", f), lo, hi)]
    random.Random(opt["--seed"]).shuffle(todo)
    total = len(todo)
    todo = todo[:opt["--max"]]
    q = queue.Queue()
    for t in todo:
        q.put(t)
    print(args[0], "%d of %d mutants" % (len(todo), total), flush=True)
    stats = {"caught": 0, "missed": 0, "invalid": 0}
    lock = threading.Lock()
    tag = os.getpid()

    def run(cmd, env, limit):
        p = subprocess.Popen(cmd, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        try:
            out = p.communicate(timeout=limit)[0]
            return p.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            return 99, ""

    def work(j):
        root, bld = "/tmp/mutcc_%d_%d" % (tag, j), "/tmp/mutccb_%d_%d" % (tag, j)
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns("cmake_build", ".git"))
        env = dict(os.environ, VERIF_REPO=root, VERIF_BUILD=bld, VERIF_FAILFAST="1", VERIF_WORKERS=str(max(2, 8 // opt["--jobs"])),
                   PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   OPENCV_LOG_LEVEL="SILENT", TZ="UTC", VERIF_REPLAYS="/tmp/mutcc_replays_%d_%d" % (tag, j))
        run(["python3", "tools/build.py"], env, 900)
        while True:
            try:
                f, what, src = q.get_nowait()
            except queue.Empty:
                break
            path = os.path.join(root, "opensfm/src", f)
            old = open(path).read()
            open(path, "w").write("\n".join(src))
            rc, out = run(["python3", "tools/build.py"], env, 900)
            res, odd = "missed", ""
            if rc:
                res = "invalid"
            else:
                for pid in pids:
                    rc, out = run(["/opt/venv/bin/python", "-c", "import sys; sys.path.insert(0, 'tools'); import vlib; sys.exit(vlib.main('%s'))" % pid], env, 400)
                    if rc:
                        res = "caught"
                        if rc != 1:
                            odd = "ODD rc=%d %s %s %s" % (rc, f, what, out[-200:].replace("\n", " "))
                        break
            open(path, "w").write(old)
            with lock:
                stats[res] += 1
                if res == "missed":
                    print("MISSED %s:%s" % (f, what), flush=True)
                elif odd:
                    print(odd, flush=True)
        shutil.rmtree(root, ignore_errors=True)
        shutil.rmtree(bld, ignore_errors=True)
        shutil.rmtree("/tmp/mutcc_replays_%d_%d" % (tag, j), ignore_errors=True)

    ts = [threading.Thread(target=work, args=(j,)) for j in range(opt["--jobs"])]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    print(args[0], "done", stats, flush=True)


if __name__ == "__main__":
    main()
