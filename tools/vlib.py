"""Runner shared by all checks.

A check is a module checks/<id>.py that enumerates cases and decides each one:

    LEVEL, TECHNIQUE, RULE            constants for the evidence
    def setup(ck)                     optional, once, before the workers are forked
    def cases(ck)                     list of JSON-able cases, ck.tier tells how deep
    def check(ck, case)               runs one case against the real code

`check` reports through ck.fail(key, message), counts through ck.ev/ck.states/... and
names what it observed with ck.outcome(x).  Cases are spread over forked workers; a
worker that dies (signal) or makes no progress is itself reported as a violation of
the case it was running.
"""
import ctypes
import hashlib
import importlib
import json
import mmap
import os
import pickle
import signal
import struct
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.environ.get("VERIF_REPLAYS") or os.path.join(os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build")), "replays")
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))      # tools/mutate.py: stop at the first violation
KNOWN = os.path.join(VERIF, "known_findings.txt")
STALL_S = 40 if FAILFAST else 150
WORKERS = int(os.environ.get("VERIF_WORKERS", 8))


def digest(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Ck:
    """What a check sees: tier, seed, scratch directory, counters and verdicts."""

    def __init__(self, pid, tier, seed, scratch):
        self.pid, self.tier, self.seed, self.scratch = pid, tier, seed, scratch
        self.quick = tier != "thorough"
        self.counts = {}
        self.outcomes = set()
        self.state_set = set()
        self.samples = []
        self.violations = []
        self.notes = []
        self.case = None
        self._beat = None

    # counters -------------------------------------------------------------
    def add(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def ev(self, n=1):
        self.add("evaluations", n)
        self.beat()

    def state(self, canon):
        """Counts a state; true if this worker sees it for the first time."""
        h = digest(canon)
        new = h not in self.state_set
        self.state_set.add(h)
        return new

    def transition(self, n=1):
        self.add("transitions", n)
        self.beat()

    def outcome(self, x):
        self.outcomes.add(digest(x))

    def sample(self, x):
        if len(self.samples) < 2:
            self.samples.append(x)

    def beat(self):
        if self._beat:
            self._beat()

    # verdicts -------------------------------------------------------------
    def fail(self, key, what, detail=None):
        """key: identifies the failing input, site or history (for known findings)."""
        if callable(what):
            what = what()
        if FAILFAST and self._beat and key not in known_findings(self.pid):
            open(os.path.join(os.path.dirname(self.scratch), "stop"), "w").close()
        if sum(1 for v in self.violations if v["key"] == key) < 2 and len(self.violations) < 200:
            self.violations.append({"key": key, "what": str(what)[:2000], "case": self.case, "detail": detail})

    def expect(self, cond, key, what, detail=None):
        if not cond:
            self.fail(key, what, detail)
        return bool(cond)


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                assert key.startswith("key="), line
                out[key[4:]] = what
    return out


def _seed(ck, case):
    """Every random choice of the code under test is the same whenever a case is run."""
    import random
    import numpy
    k = zlib.crc32(("%s %s %s" % (ck.pid, ck.seed, json.dumps(case, default=repr))).encode())
    random.seed(k)
    numpy.random.seed(k)
    ctypes.CDLL(None).srand(k)


def _run_case(mod, ck, case):
    ck.case = case
    _seed(ck, case)
    try:
        mod.check(ck, case)
    except Exception:
        tb = traceback.format_exc()
        last = traceback.extract_tb(sys.exc_info()[2])[-1]
        ck.fail("raised:%s:%s" % (type(sys.exc_info()[1]).__name__, os.path.basename(last.filename)),
                "the case raised:\n" + tb[-1800:])


def _dump(ck):
    return {"counts": ck.counts, "outcomes": ck.outcomes, "states": ck.state_set, "samples": ck.samples,
            "violations": ck.violations, "notes": ck.notes}


def _merge(ck, d):
    for k, v in d["counts"].items():
        ck.add(k, v)
    ck.outcomes |= d["outcomes"]
    ck.state_set |= d["states"]
    ck.samples += d["samples"]
    ck.violations += d["violations"]
    ck.notes += d["notes"]


def run_cases(mod, ck, cases, workers):
    """Shards the cases over forked workers. Returns when all are decided."""
    workers = max(1, min(workers, len(cases)))
    mm = mmap.mmap(-1, 32 * workers)
    nxt = mmap.mmap(-1, 8)
    import fcntl
    lockf = os.path.join(ck.scratch, "next.lock")
    open(lockf, "w").close()
    procs = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                ck.scratch = os.path.join(ck.scratch, "w%d" % w)
                os.makedirs(ck.scratch, exist_ok=True)
                tick = [0]

                def beat():
                    tick[0] += 1
                    struct.pack_into("q", mm, 32 * w + 8, tick[0])
                ck._beat = beat
                fd = os.open(lockf, os.O_RDWR)
                while True:
                    fcntl.flock(fd, fcntl.LOCK_EX)
                    i = struct.unpack_from("q", nxt, 0)[0]
                    struct.pack_into("q", nxt, 0, i + 1)
                    fcntl.flock(fd, fcntl.LOCK_UN)
                    if i >= len(cases):
                        break
                    struct.pack_into("q", mm, 32 * w, i + 1)
                    beat()
                    _run_case(mod, ck, cases[i])
                if hasattr(mod, "worker_done"):
                    mod.worker_done(ck)
                with open(os.path.join(ck.scratch, "..", "out%d" % w), "wb") as f:
                    pickle.dump(_dump(ck), f)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        procs[pid] = w
    last = {w: (None, time.time()) for w in range(workers)}
    while procs:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid in procs:
            w = procs.pop(pid)
            if st != 0:
                i = struct.unpack_from("q", mm, 32 * w)[0] - 1
                ck.case = cases[i] if 0 <= i < len(cases) else None
                if os.WIFSIGNALED(st):
                    ck.fail("crash:signal%d" % os.WTERMSIG(st), "the process died with signal %d" % os.WTERMSIG(st))
                else:
                    ck.fail("crash:exit", "the process ended with status %d" % st)
            else:
                with open(os.path.join(ck.scratch, "out%d" % w), "rb") as f:
                    _merge(ck, pickle.load(f))
            continue
        if pid:
            continue
        time.sleep(0.02)
        now = time.time()
        if FAILFAST and os.path.exists(os.path.join(ck.scratch, "stop")):
            ck.fail("failfast", "a violation")
            for p in procs:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            return
        for p, w in list(procs.items()):
            t = bytes(mm[32 * w:32 * w + 16])
            if t != last[w][0]:
                last[w] = (t, now)
            elif now - last[w][1] > STALL_S:
                i = struct.unpack_from("q", mm, 32 * w)[0] - 1
                ck.case = cases[i] if 0 <= i < len(cases) else None
                ck.fail("hang", "no progress for %d s: the case does not terminate" % STALL_S)
                try:
                    os.killpg(p, signal.SIGKILL)
                except OSError:
                    os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
                del procs[p]


def main(pid, replay=None):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = "thorough" if tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    rc = 2
    try:
        rc = _main(pid, tier, seed, scratch, t0, replay)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _main(pid, tier, seed, scratch, t0, replay):
    import boot  # noqa: F401  (the import hook)
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(pid.lower())
    ck = Ck(pid, tier, seed, scratch)
    if hasattr(mod, "setup"):
        mod.setup(ck)
    if replay:
        cases = [json.load(open(replay))["case"]]
    else:
        cases = list(mod.cases(ck))
    ncases = len(cases)
    run_cases(mod, ck, cases, getattr(mod, "WORKERS", WORKERS))
    if hasattr(mod, "finish") and not replay:
        ck.case = None
        mod.finish(ck)

    known = known_findings(pid)
    seen, new = {}, []
    for v in ck.violations:
        if v["key"] in known:
            seen[v["key"]] = v
        else:
            new.append(v)
    for key in seen:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, key, known[key]))
    os.makedirs(REPLAYS, exist_ok=True)
    uniq = {}
    for v in new:
        uniq.setdefault(v["key"], v)
    for n, (key, v) in enumerate(sorted(uniq.items())[:12]):
        path = os.path.join(REPLAYS, "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(v, property=pid, replay_cmd="tools/run %s --replay %s" % (pid, path)), f, indent=1, default=repr)
        print("  [%s] %s" % (key, v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))

    c = ck.counts
    cov = {"cases": ncases}
    if mod.LEVEL == "model_checking":
        cov["states"] = len(ck.state_set) + c.pop("states", 0)
        cov["transitions"] = c.pop("transitions", 0)
        cov["traces_validated_against_impl"] = c.pop("traces", 0)
    else:
        cov["evaluations"] = c.pop("evaluations", 0)
        cov["distinct_nontrivial"] = len(ck.outcomes)
    cov["rule"] = mod.RULE
    if mod.LEVEL == "model_checking" and ck.outcomes:
        cov["distinct_outcomes"] = len(ck.outcomes)
    cov.update(c)
    cov["samples"] = ck.samples[:4]
    if ck.notes:
        cov["notes"] = sorted(set(ck.notes))[:20]
    if hasattr(mod, "EXHAUSTIVE"):
        cov["exhaustive"] = bool(mod.EXHAUSTIVE)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(uniq)}
    if not replay and "VERIF_BUILD" not in os.environ:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
    print("%s %s: %s" % (pid, tier, " ".join("%s=%s" % (k, v) for k, v in cov.items()
                                             if isinstance(v, (int, float)) and not isinstance(v, bool))),
          "violations=%d known=%d %.1fs" % (len(uniq), len(seen), time.time() - t0))
    return 1 if uniq else 0
