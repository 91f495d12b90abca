"""C09: feature extraction handles every image exactly once, terminates and surfaces errors, under every interleaving
of its reader and detector threads."""
import itertools
import types as pytypes

import numpy as np
import sched
from opensfm import config as osfm_config
from opensfm import bow, features, features_processing

LEVEL = "model_checking"
RULE = ("the real run_features_processing, its queue, lock and shared counter under a controlled scheduler: every schedule "
        "with at most 2 (quick) or 3 (thorough) departures from run-until-blocked of each configuration (images, processes, read processes, queue "
        "capacity, images that fail); scheduling points at every queue, lock and shared-counter access and dataset call; a "
        "state is a distinct (configuration, sequence of completed dataset calls)")
ASSUMPTIONS = ["parallel_map is replaced by its contract (checked on the real joblib in C10)",
               "accesses to plain local variables are not scheduling points"]


class Data:
    """dataset stand-in: what feature extraction asks for, with a scheduling point at every call"""

    def __init__(self, cfg):
        n, procs, readers, cap, self.bad_read, self.bad_detect, self.have = cfg
        self.names = ["im%d" % i for i in range(n)]
        self.config = osfm_config.default_config()
        self.config.update(processes=procs, read_processes=readers, mem_ceiling=2000000, mem_ratio=1.0,
                           feature_process_size=64, features_bake_segmentation=False, matching_bow_neighbors=0)
        mb = 1000000.0 / (cap + 0.5) if cap else 3000000.0
        w = int(mb * 1024 * 1024 / 4 / 1000)
        self.cameras = {"c": pytypes.SimpleNamespace(width=w, height=1000, projection_type="perspective")}
        self.saved, self.reports, self.events, self.loaded = {}, {}, [], []

    def images(self):
        return list(self.names)

    def load_camera_models(self):
        return self.cameras

    def load_image(self, im):
        sched.S.point()
        if self.bad_read is not None and im == self.names[self.bad_read]:
            raise IOError("cannot read " + im)
        self.loaded.append(im)
        self.events.append("r" + im)
        return np.full((4, 6, 3), self.names.index(im) + 1, np.uint8)

    def load_segmentation(self, im):
        return None

    def load_instances(self, im):
        return None

    def load_mask(self, im):
        return None

    def segmentation_ignore_values(self, im):
        return []

    def segmentation_labels(self):
        return []

    def load_exif(self, im):
        return {"camera": "c", "width": 6, "height": 4, "orientation": 1}

    def features_exist(self, im):
        return im in self.saved or im in [self.names[i] for i in self.have]

    def words_exist(self, im):
        return True

    def feature_type(self):
        return "hahog"

    def save_features(self, im, fd):
        sched.S.point()
        self.saved.setdefault(im, []).append(fd)
        self.events.append("s" + im)

    def save_report(self, txt, name):
        self.reports.setdefault(name, []).append(txt)


def fake_extract(data):
    def extract_features(image, cfg, is_pano):
        k = int(image[0, 0, 0])
        if data.bad_detect is not None and k == data.bad_detect + 1:
            raise ValueError("cannot detect")
        p = np.array([[0.1, 0.2, 3.0, k], [0.1, 0.2, 1.0, k], [0.3, 0.2, 2.0, k]])
        return p, np.full((3, 4), k, np.float32) + np.arange(3)[:, None] / 10, np.full((3, 3), k, np.uint8)
    return extract_features


def shared(cls):
    """every access to the shared attributes of an instance becomes a scheduling point"""
    class Shared(cls):
        def __getattribute__(self, name):
            v = object.__getattribute__(self, name)
            if not name.startswith("__") and name in object.__getattribute__(self, "__dict__"):
                if sched.inside():
                    sched.S.point()
                    v = object.__getattribute__(self, name)
            return v

        def __setattr__(self, name, v):
            if sched.inside():
                sched.S.point()
            object.__setattr__(self, name, v)
    Shared.__name__ = cls.__name__
    return Shared


REAL_COUNTER = getattr(features_processing, "Counter", None)


def execute(cfg, choices):
    data = Data(cfg)
    fp = features_processing
    queues = []

    class Q(sched.Queue):
        def __init__(self, maxsize=0):
            sched.Queue.__init__(self, maxsize)
            queues.append(self)

    class qs(sched.queue_shim):
        Queue = Q
    old = {k: getattr(fp, k) for k in ("queue", "threading", "parallel_map", "Counter") if hasattr(fp, k)}
    old_extract = features.extract_features
    s = sched.Scheduler(choices)
    try:
        fp.queue, fp.threading, fp.parallel_map = qs, sched.threading_shim, sched.parallel_map
        if REAL_COUNTER is not None:
            fp.Counter = shared(REAL_COUNTER)
        features.extract_features = fake_extract(data)
        sched.S = s
        main = s.run(lambda: fp.run_features_processing(data, data.images(), False))
    finally:
        sched.S = None
        features.extract_features = old_extract
        for k, v in old.items():
            setattr(fp, k, v)
    return s.log, (data, s, main, queues)


def judge(ck, cfg, choices, obs):
    data, s, main, queues = obs
    n, procs, readers, cap, bad_read, bad_detect, have = cfg
    ck.transition(len(s.log) + 1)
    ck.add("traces")
    ck.add("schedules")
    ck.state((cfg, tuple(data.events)))
    bad = []
    fails = bad_read is not None or (bad_detect is not None and bad_detect not in have)
    if s.deadlock is not None:
        bad.append(("deadlock", "nobody can go on (threads %s are stuck)" % (s.deadlock,)))
    elif not main.done:
        bad.append(("stuck", "did not return"))
    elif fails:
        if main.exc is None:
            bad.append(("error-lost", "image %s failed and no error surfaced" % (bad_read, )))
    else:
        if main.exc is not None:
            bad.append(("raised", "raised %r" % (main.exc,)))
        if s.timeouts:
            bad.append(("timeout", "a queue operation timed out"))
        for i, im in enumerate(data.names):
            got = data.saved.get(im, [])
            if i in have:
                if got:
                    bad.append(("recomputed", "%s had features and was computed again" % im))
                continue
            if len(got) != 1:
                bad.append(("count", "%s was computed %d times" % (im, len(got))))
            for fd in got:
                if not (fd.descriptors.astype(int) == i + 1).all() or not (fd.colors == i + 1).all():
                    bad.append(("mixed", "the features saved for %s are those of another image" % im))
                if list(fd.points[:, 2]) != [1.0, 2.0, 3.0] or not np.allclose(fd.descriptors[:, 0] - i - 1, [0.1, 0.2, 0.0]):
                    bad.append(("order", "features of %s: sizes %r" % (im, list(fd.points[:, 2]))))
            if len(data.reports.get("features/%s.json" % im, [])) != 1:
                bad.append(("report", "report of %s" % im))
        if sorted(data.loaded) != data.names:
            bad.append(("loads", "images were read as %r" % (data.loaded,)))
    for q in queues:
        if q.maxsize and q.peak > q.maxsize:
            bad.append(("capacity", "the queue held %d of %d" % (q.peak, q.maxsize)))
    for key, what in bad[:3]:
        ck.fail("features:%s" % key, "images=%d processes=%d read_processes=%d queue=%d bad_read=%s bad_detect=%s existing=%s, "
                "schedule %s: %s" % (n, procs, readers, cap, bad_read, bad_detect, have,
                                     [i for i, c in enumerate(choices) if c], what), detail={"cfg": cfg, "choices": choices})
    return not bad


def cases(ck):
    out = []
    for procs in (1, 2, 3, 4) if ck.quick else (1, 2, 3, 4, 5):
        for readers in (1, 2, 3):
            for n in (1, 2, 3) if ck.quick else (1, 2, 3, 4):
                for cap in (1, 2, 0):
                    if procs == 1 and readers > 1:
                        continue
                    twin = readers > (2 if procs == 4 else 1)
                    out.append([n, procs, readers, cap, None, None, [], "dev1" if twin and procs < 5 else "dev"])
    for procs, readers in ((1, 1), (2, 1), (4, 2)):
        for n in (2, 3):
            for k in range(n):
                out.append([n, procs, readers, 2, k, None, [], "dev"])
                out.append([n, procs, readers, 2, None, k, [], "dev"])
                out.append([n, procs, readers, 2, None, None, [k], "dev"])
            out.append([n, procs, readers, 1, None, None, list(range(n)), "dev"])
    # smaller ones, with every choice at blocking points free
    for n, procs, readers, cap in ((1, 2, 1, 1), (2, 2, 1, 1), (1, 3, 1, 1), (2, 3, 1, 1), (2, 3, 1, 2), (2, 4, 2, 1), (2, 4, 2, 2)):
        out.append([n, procs, readers, cap, None, None, [], "pre"])
    big = [c for c in out if c[-1] == "pre" or c[1] >= 3 and c[0] >= 3]
    out += [["needs", m, k] for m in ("FLANN", "BRUTEFORCE", "WORDS") for k in (0, 3)]
    return big + [c for c in out if c not in big]


def needs(ck, matcher, neighbors):
    """Which images need features: those without, those without the words that the configuration needs, all if forced."""
    fp = features_processing
    for force in (False, True):
        for have in itertools.product((0, 1, 2), repeat=2):         # nothing, features only, features and words
            for procs in (1, 2):
                data = Data((2, procs, 1, 2, None, None, ()))
                data.config.update(matcher_type=matcher, matching_bow_neighbors=neighbors)
                words = {}
                data.features_exist = lambda im: bool(have[data.names.index(im)])
                data.words_exist = lambda im: have[data.names.index(im)] == 2
                data.save_words = lambda im, w: words.setdefault(im, []).append(w)

                class Bows:
                    def map_to_words(self, f, n, m):
                        return np.asarray(f) * 10 + n
                old, old_load = features.extract_features, bow.load_bows
                try:
                    features.extract_features, bow.load_bows = fake_extract(data), lambda cfg: Bows()
                    sched.S = pytypes.SimpleNamespace(point=lambda: None)
                    fp.run_features_processing(data, data.images(), force)
                finally:
                    features.extract_features, bow.load_bows, sched.S = old, old_load, None
                ck.ev()
                ck.add("traces")
                need_words = matcher == "WORDS" or neighbors > 0
                for im, h in zip(data.names, have):
                    want = force or h == 0 or (h == 1 and need_words)
                    what = "matcher %s, %d neighbors by words, %s, %s has %s" % (matcher, neighbors, "forced" if force else "not forced", im,
                                                                                ("nothing", "features", "features and words")[h])
                    got = data.saved.get(im, [])
                    ck.expect(len(got) == want, "needs", "%s: features saved %d times" % (what, len(got)))
                    w = words.get(im, [])
                    ck.expect(len(w) == (want and need_words), "needs-words", "%s: words saved %d times" % (what, len(w)))
                    if w and got:
                        ck.expect(np.allclose(w[0], np.asarray(got[0].descriptors) * 10 + data.config["bow_words_to_match"]), "words-step",
                                  "%s: words %r of features %r" % (what, w[0], got[0].descriptors))
                ck.state(("needs", matcher, neighbors, force, have))


def check(ck, case):
    if case[0] == "needs":
        return needs(ck, case[1], case[2])
    n, procs, readers, cap, br, bd, have, mode = case
    cfg = (n, procs, readers, cap, br, bd, tuple(have))
    bound = 2 if ck.quick else 3
    if mode == "dev1":
        bound -= 1
    if mode == "pre":
        bound -= 1 + (procs >= 4 and ck.quick)
    bad = [0]

    def visit(choices, obs):
        if bad[0] < 3 and not judge(ck, cfg, choices, obs):
            bad[0] += 1
    # the same schedule twice must give the same observations
    l1, o1 = execute(cfg, [])
    l2, o2 = execute(cfg, [])
    assert l1 == l2 and o1[0].events == o2[0].events, "replay is not deterministic"
    st = sched.explore(lambda pre: execute(cfg, pre), bound, visit, free_blocking=(mode == "pre"))
    ck.add("configurations")
    ck.add("executions_%s_bound_%d" % (mode, bound), st["executions"])
    ck.sample({"configuration": list(cfg), "bound": "%d %s" % (bound, "preemptions" if mode == "pre" else "deviations"),
               "schedules": st["executions"]})
    ck.notes.append("%s %r bound %d: %d" % (mode, cfg, bound, st["executions"]))
