"""C10: parallel_map returns func(arg) for every argument in order, whatever order the calls finish in; it surfaces
errors, bounds concurrency and restores OpenCV's threads."""
import threading
import time

import cv2
from opensfm import context

LEVEL = "model_checking"
RULE = ("the real parallel_map over joblib with every order in which the running calls can finish (depth-first over which of "
        "the started calls is let go next) for 0..5 arguments, 1..4 workers, batch sizes 0..3 and every failing argument; a "
        "state is a distinct (configuration, set of finished calls, set of running calls)")


class Boom(Exception):
    pass


def execute(n, procs, batch, bad, choices):
    """Lets calls finish in the order given by choices (index among the started ones, sorted)."""
    cv = threading.Condition()
    started, finished, go = [], [], set()
    info = {"max": 0, "threads": set(), "calls": []}
    args = [(i, "arg") for i in range(n)]
    given = list(args)

    def func(a):
        i = a[0]
        with cv:
            started.append(i)
            info["calls"].append(i)
            info["threads"].add(cv2.getNumThreads())
            info["max"] = max(info["max"], len(started) - len(finished))
            cv.notify_all()
            while i not in go:
                cv.wait(20)
            finished.append(i)
            cv.notify_all()
        if i == bad:
            raise Boom("call %d" % i)
        return (i * i, "res")
    out = {}

    def top():
        try:
            out["res"] = context.parallel_map(func, args, procs, batch)
        except BaseException as e:
            out["exc"] = e
        out["cv2"] = cv2.getNumThreads()
        with cv:
            out["done"] = True
            cv.notify_all()
    cv2.setNumThreads(3)
    t = threading.Thread(target=top, daemon=True)
    t.start()
    log, states = [], []
    width = max(1, min(procs, n))
    deadline = time.time() + 60
    with cv:
        while not out.get("done") and time.time() < deadline:
            # wait until as many calls run as can
            want = min(width, n - len(finished))
            end = time.time() + (0.5 if batch == 1 or width == 1 else 0.03)
            while not out.get("done") and len(started) - len(finished) < want and time.time() < end:
                cv.wait(0.01)
                if bad is not None and bad in finished and time.time() > end - 0.4:
                    break
            run = sorted(set(started) - set(finished))
            if out.get("done"):
                break
            if not run:
                cv.wait(0.01)
                continue
            states.append((tuple(sorted(finished)), tuple(run)))
            k = len(log)
            c = choices[k] if k < len(choices) else 0
            c = min(c, len(run) - 1)
            log.append((len(run), c))
            go.add(run[c])
            cv.notify_all()
            end = time.time() + 5
            while run[c] not in finished and time.time() < end:
                cv.wait(0.05)
        go.update(range(n))
        cv.notify_all()
    t.join(20)
    return log, states, out, info, given == args


def cases(ck):
    out = []
    for n in range(0, 6 if ck.quick else 7):
        for procs in (1, 2, 3, 4):
            for batch in (1, 0, 3):
                out.append([n, procs, batch, None])
            for bad in range(n):
                out.append([n, procs, 1, bad])
    return sorted(out, key=lambda c: -(c[0] * c[1]))


def check(ck, case):
    n, procs, batch, bad = case
    stack = [[]]
    runs = 0
    while stack and runs < (300 if ck.quick else 20000):
        pre = stack.pop()
        log, states, out, info, kept = execute(n, procs, batch, bad, pre)
        runs += 1
        ck.transition(len(log) + 1)
        ck.add("traces")
        for s in states:
            ck.state((n, procs, batch, bad, s))
        what = "%d arguments, %d workers, batch %d, failing %s, order %r" % (n, procs, batch, bad, [c for _, c in log])
        if not ck.expect(out.get("done"), "hang", what + ": did not return"):
            return
        ck.outcome((n, procs, batch, bad, tuple(c for _, c in log)))
        if bad is None:
            ck.expect(out.get("res") == [(i * i, "res") for i in range(n)], "results", "%s: %r" % (what, out))
            ck.expect(sorted(info["calls"]) == list(range(n)), "calls", "%s: called for %r" % (what, info["calls"]))
        else:
            ck.expect(isinstance(out.get("exc"), Boom) and str(out["exc"]) == "call %d" % bad, "error", "%s: %r" % (what, out))
            ck.expect(len(set(info["calls"])) == len(info["calls"]), "calls", "%s: called for %r" % (what, info["calls"]))
        ck.expect(info["max"] <= max(1, procs), "concurrency", "%s: %d calls at once" % (what, info["max"]))
        ck.expect(info["threads"] <= {0, 1}, "cv2-inside", "%s: OpenCV threads %r inside" % (what, info["threads"]))
        ck.expect(out.get("cv2") == 3, "cv2-after", "%s: OpenCV threads %r afterwards instead of 3" % (what, out.get("cv2")))
        ck.expect(kept, "args", "%s: the arguments were changed" % what)
        for i in range(len(log) - 1, len(pre) - 1, -1):
            for alt in range(log[i][1] + 1, log[i][0]):
                stack.append([c for _, c in log[:i]] + [alt])
    if stack:
        ck.notes.append("capped: %r" % (case,))
    ck.sample({"case": case, "orders": runs})
