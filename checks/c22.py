"""C22: the whole reconstruction of exact data gives back the scene: every image that can be placed is placed, once and right."""
import contextlib
import io as sio
import itertools
import math

import numpy as np
from opensfm import geo, pygeometry, pymap, reconstruction as orec, rig
from opensfm.actions import reconstruct

import bascene
from memdata import MemData
from scene import rod

LEVEL = "exploration"
RULE = ("all families of up to three groups of tracks over up to five images; all places of wrong observations; all camera models x rigs x settings; all orders of image names; "
        "non-trivial: distinct (tracks, wrong observations, settings) combinations")
ASSUMPTIONS = ["observations exact but for the wrong ones, GPS exact", "wrong observations are far off (more than ten times the thresholds)"]
REF = geo.TopocentricConverter(47.0, 8.5, 300.0)
PLACES = [(0, -10, 1), (5, -9, 2.5), (-4.5, -8.5, -0.5), (8.5, -5.5, 0.5), (2.5, -11, 4), (-8, -6, 2), (9.5, -1, 1.5)]


class Data(MemData):
    def __init__(self, **cfg):
        super().__init__(**cfg)
        self.assign, self.rigcams, self.gcps, self.tm = {}, {}, [], None
        self.recs, self.reports, self.partial = None, {}, 0

    def load_rig_cameras(self):
        out = rig.default_rig_cameras(self.cams)
        out.update(self.rigcams)
        return out

    def load_rig_assignments(self):
        return self.assign

    def load_ground_control_points(self):
        return self.gcps

    def load_reference(self):
        return REF

    def load_tracks_manager(self, filename=None):
        return self.tm

    def save_reconstruction(self, recs, filename=None, **kw):
        if filename is None:
            self.recs = recs
        else:
            self.partial += 1

    def save_report(self, text, name):
        self.reports[name] = text


def cloud(n, k):
    """the points of group k: spread, never on a plane, the same for every run"""
    rng = np.random.RandomState(100 + k)
    return rng.uniform(-1, 1, (n, 3)) * [4, 3, 3]


class World:
    """cameras with known poses and groups of points seen by some of them: groups is a list of (number of points, images)"""

    def __init__(self, n, groups, kinds=("perspective",), rigs=None, wrong=(), names=None, gps=True, missing_gps=(), **cfg):
        self.data = d = Data(**cfg)
        self.cams = []
        for j, k in enumerate(kinds):
            c = bascene.camera(k, "c%d" % j)
            d.cams[c.id] = c
            self.cams.append(c)
        self.pose, self.cam, self.inst = {}, {}, {}
        self.images = []
        for i in range(n):
            name = names[i] if names else "im%d" % i
            P = bascene.pose(bascene.look(PLACES[i], (0.1 * i - 0.2, 0.3, 0.1 * i), 0.03 * i), PLACES[i])
            if rigs:
                d.assign["inst_" + name] = []
                for j, (a, t) in enumerate(rigs):
                    q = bascene.pose(rod(a), (0, 0, 0))
                    q.translation = np.array(t, float)
                    d.rigcams["r%d" % j] = pymap.RigCamera(q, "r%d" % j)
                    sid = "%s_%d" % (name, j)
                    d.assign["inst_" + name].append((sid, "r%d" % j))
                    self.images.append(sid)
                    self.pose[sid], self.cam[sid], self.inst[sid] = q.compose(P), self.cams[j % len(self.cams)], i
            else:
                self.images.append(name)
                self.pose[name], self.cam[name], self.inst[name] = P, self.cams[i % len(self.cams)], i
        for sid in self.images:
            ex = {"camera": self.cam[sid].id, "make": "m", "model": "x", "width": 1000, "height": 800, "orientation": 1, "capture_time": 0.0}
            if gps and self.inst[sid] not in missing_gps:
                lat, lon, alt = REF.to_lla(*PLACES[self.inst[sid]])  # on rigs, that of the instance
                ex["gps"] = {"latitude": lat, "longitude": lon, "altitude": alt, "dop": 5.0}
            d.exifs[sid] = ex
        self.X, self.right, self.wrong = {}, {}, set()
        self.tm = d.tm = pymap.TracksManager()
        wrong = set(wrong)
        for g, (num, who) in enumerate(groups):
            pts = cloud(num, g)
            for k in range(num):
                tid = "%d" % (1000 * g + k)
                self.X[tid], self.right[tid] = pts[k], set()
                for sid in self.images:
                    if self.inst[sid] not in who:
                        continue
                    xy = self.cam[sid].project(self.pose[sid].transform(pts[k]))
                    bad = (self.inst[sid], g, k) in wrong or (self.inst[sid], g, None) in wrong
                    if bad:
                        h = ((k * 7919 + self.inst[sid] * 104729 + 13) * 2654435761 >> 7) % 65536 / 65536.0
                        away = np.array([math.cos(6.2832 * h), math.sin(6.2832 * h)]) * (0.15 + 0.1 * (13 * h % 1))
                        if self.cam[sid].projection_type == "spherical":
                            away = away * 0.3
                        xy = xy + away
                        self.wrong.add((sid, tid))
                    else:
                        self.right[tid].add(sid)
                    self.tm.add_observation(sid, tid, pymap.Observation(xy[0], xy[1], 0.004, (k * 3) % 256, g, 9, 1000 * g + k))

    def run(self, algorithm="incremental"):
        with contextlib.redirect_stdout(sio.StringIO()):
            reconstruct.run_dataset(self.data, orec.ReconstructionAlgorithm(algorithm))
        import json
        return json.loads(self.data.reports["reconstruction.json"]), self.data.recs

    def angle(self, tid, sids):
        best = 0.0
        for a, b in itertools.combinations(sorted(sids), 2):
            u, v = self.X[tid] - self.pose[a].get_origin(), self.X[tid] - self.pose[b].get_origin()
            best = max(best, math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v))))
        return best

    def plausible(self, tid, a, b):
        """whether two observations, of which some are wrong, happen to agree"""
        c, R, v = [], [], []
        for sid in (a, b):
            o = self.tm.get_observation(sid, tid)
            v.append(self.pose[sid].get_R_cam_to_world() @ self.cam[sid].pixel_bearing(o.point))
            c.append(self.pose[sid].get_origin())
        base = c[1] - c[0]
        n = np.cross(base, v[0])
        return abs(n @ v[1]) / np.linalg.norm(n) < 0.03

    def compare(self, ck, rec, what, tol=2e-3, absolute=True, points=True):
        """poses, points and links of a reconstruction against the truth"""
        ids = sorted(rec.shots.keys())
        if len({self.inst[i] for i in ids}) == 2:  # refined less
            tol = 10 * tol
        s, A, b = 1.0, np.eye(3), np.zeros(3)
        if not absolute:  # up to a similarity, fixed by the first camera and the distance to the others
            p, q = rec.shots[ids[0]].pose, self.pose[ids[0]]
            A = q.get_rotation_matrix().T @ p.get_rotation_matrix()
            other = max(ids, key=lambda i: np.linalg.norm(self.pose[i].get_origin() - q.get_origin()))
            s = np.linalg.norm(self.pose[other].get_origin() - q.get_origin()) / np.linalg.norm(rec.shots[other].pose.get_origin() - p.get_origin())
            b = q.get_origin() - s * A @ p.get_origin()
        for sid in ids:
            p, q = rec.shots[sid].pose, self.pose[sid]
            c = s * A @ p.get_origin() + b
            ck.expect(np.linalg.norm(c - q.get_origin()) < 10 * tol and np.abs(p.get_rotation_matrix() @ A.T - q.get_rotation_matrix()).max() < tol, "pose",
                      "%s: %s is at %r instead of %r, turned by %r" % (what, sid, c, q.get_origin(), np.abs(p.get_rotation_matrix() @ A.T - q.get_rotation_matrix()).max()))
            ck.expect(rec.shots[sid].camera.id == self.cam[sid].id, "camera", "%s: %s has camera %s" % (what, sid, rec.shots[sid].camera.id))
            for rc in self.data.rigcams:
                if rec.shots[sid].rig_camera_id == rc:
                    ck.expect(np.allclose(rec.rig_cameras[rc].pose.get_cam_to_world(), self.data.rigcams[rc].pose.get_cam_to_world(), atol=1e-9), "rig", "%s: rig camera %s moved" % (what, rc))
        got = {tid: {x.id for x in lm.get_observations()} for tid, lm in rec.points.items()}
        for tid, sees in got.items():
            x = s * A @ rec.points[tid].coordinates + b
            bad = {i for i in sees if (i, tid) in self.wrong}
            if bad and len(sees) == 2 and self.plausible(tid, *sees):
                continue
            ck.expect(np.linalg.norm(x - self.X[tid]) < 20 * tol, "point", "%s: point %s is at %r instead of %r (seen by %r)" % (what, tid, x, self.X[tid], sees))
            ck.expect(not bad, "wrong-observation", "%s: point %s keeps the wrong observations of %r" % (what, tid, bad))
            ck.expect(sees <= set(ids) and len(sees) >= 2, "links", "%s: point %s is seen by %r" % (what, tid, sees))
            k = int(tid)
            ck.expect(tuple(rec.points[tid].color) == ((k % 1000 * 3) % 256, k // 1000, 9), "colour", "%s: point %s has colour %r" % (what, tid, rec.points[tid].color))
        if points:
            lim = math.radians(self.data.config["triangulation_min_ray_angle"])
            for tid, right in self.right.items():
                r = right & set(ids)
                if len(r) >= 2 and self.angle(tid, r) > 1.2 * lim and not any((i, tid) in self.wrong for i in ids):
                    ck.expect(got.get(tid) == r, "missing", "%s: point %s is seen by %r instead of %r" % (what, tid, got.get(tid), sorted(r)))


def partition(ck, w, report, recs, want, what):
    """recs and report against the expected parts (list of sets of images, largest first; equal sizes in any order)"""
    got = [set(r.shots.keys()) for r in recs]
    ck.expect([len(g) for g in got] == sorted((len(g) for g in got), reverse=True), "order", "%s: reconstructions of %r images" % (what, [len(g) for g in got]))
    ok = sorted(map(sorted, got)) == sorted(map(sorted, want))
    ck.expect(ok, "partition", "%s: reconstructions %r instead of %r" % (what, [sorted(g) for g in got], [sorted(g) for g in want]))
    rest = set(w.tm.get_shot_ids()) - set().union(*got) if got else set(w.tm.get_shot_ids())
    nr = report.get("not_reconstructed_images", [])
    ck.expect(set(nr) == rest and len(nr) == len(rest), "not-reconstructed", "%s: %r instead of %r" % (what, nr, rest))
    return ok


def grown(w, groups, start, least, placed_before=()):
    """images that can be added, one after the other, from the pair `start`"""
    inside = set(start)
    n = max(w.inst.values()) + 1
    while True:
        new = None
        for i in range(n):
            if i in inside or i in placed_before:
                continue
            if sum(num for num, who in groups if i in who and len(inside & set(who)) >= 2) >= least:
                new = i
        if new is None:
            return inside
        inside.add(new)


def expected(w, groups, n, least=10, common=50):
    """parts found by starting from the pair with most common tracks"""
    pairs = []
    for a, b in itertools.combinations(range(n), 2):
        c = sum(num for num, who in groups if a in who and b in who)
        if c >= common:
            pairs.append((c, a, b))
    pairs.sort(reverse=True)
    used, parts = set(), []
    for c, a, b in pairs:
        if a in used or b in used:
            continue
        part = grown(w, groups, (a, b), least, used)
        parts.append(part)
        used |= part
    return parts


FLAGS = [("processes", 2), ("bundle_interval", 1), ("local_bundle_radius", 0), ("retriangulation", False), ("retriangulation_ratio", 1.0), ("triangulation_type", "ROBUST"),
         ("bundle_use_gps", False), ("save_partial_reconstructions", True), ("five_point_reversal_check", True), ("bundle_outlier_filtering_type", "AUTO"),
         ("bundle_new_points_ratio", 1.0), ("local_bundle_max_shots", 2), ("optimize_camera_parameters", False), ("bundle_analytic_derivatives", False), ("align_method", "naive"),
         ("bundle_max_iterations", 20), ("triangulation_refinement_iterations", 0), ("resection_min_inliers", 40), ("use_altitude_tag", True)]
MODELS = ["perspective", "simple_radial", "radial", "brown", "fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "spherical", "dual"]
RIGPAIR = [((0.05, -0.1, 0.02), (0.004, 0.002, 0.0)), ((0.02, 0.12, -0.2), (0.02, -0.01, 0.005))]


def cases(ck):
    out = []
    sub = [s for r in (2, 3, 4) for s in itertools.combinations(range(4), r)]
    two = list(itertools.combinations_with_replacement(sub, 2))
    three = list(itertools.combinations(sub, 3))
    out += [["groups", 4, [list(x) for x in fam]] for fam in two]
    out += [["groups", 4, [list(x) for x in fam]] for k, fam in enumerate(three) if not ck.quick or k % 3 == 0]
    if not ck.quick:
        five = [s for r in (2, 3, 4, 5) for s in itertools.combinations(range(5), r)]
        out += [["groups", 5, [list(x) for x in fam]] for fam in itertools.combinations(five, 2)]
    out += [["models", m, m2, r] for m in MODELS for m2 in ([m] if ck.quick else MODELS) for r in (False, True)]
    out += [["models", m, MODELS[(k + 3) % len(MODELS)], False] for k, m in enumerate(MODELS)]
    out += [["settings", [a]] for a in range(len(FLAGS))]
    out += [["settings", [a, b]] for a, b in itertools.combinations(range(len(FLAGS)), 2) if not ck.quick or (a * 7 + b) % 4 == 0]
    out += [["names", k] for k in range(24)]
    out += [["wrong", n, i, kind] for n in (4, 5) for i in range(n) for kind in ("all", "third", "both")]
    out += [["wrong", 4, i, kind] for i in range(4) for kind in ("third-robust", "each", "each-robust")]
    out += [["rigs", m] for m in range(16)]
    out += [["position", m] for m in range(16)]
    out += [["control", k] for k in range(4)]
    out += [["focal", k, m] for k in (-1, 1) for m in ("perspective", "brown", "fisheye")]
    out += [["metadata", k] for k in range(12)]
    out += [["pairs", n] for n in range(4)]
    out += [["resect", k, r] for k in range(8) for r in (False, True)]
    out += [["start", n, kind] for n in (12, 19, 20, 21, 60, 90) for kind in ("space", "plane", "turn", "wrong", "plane-wrong")]
    return out


def check(ck, case):
    globals()[case[0] + "_"](ck, *case[1:])


def run(ck, w, parts, what, key=None, **kw):
    report, recs = w.run()
    ck.ev()
    ck.outcome(key or what)
    want = [{s for s in w.images if w.inst[s] in p} for p in parts]
    if partition(ck, w, report, recs, want, what):
        for r in recs:
            w.compare(ck, r, what, absolute=kw.get("absolute", True) and len(set(w.inst[s] for s in r.shots.keys())) > 2, **{k: v for k, v in kw.items() if k != "absolute"})
    placed = [i for x in report["reconstructions"] if "grow" in x for st in x["grow"]["steps"] for i in st["images"]]
    first = [i for x in report["reconstructions"] if "grow" in x for i in x["bootstrap"]["image_pair"]]
    ck.expect(len(placed) == len(set(placed)) and not set(placed) & set(first), "report", "%s: images placed: %r first, then %r" % (what, first, placed))
    for x in report["reconstructions"]:
        for st in x.get("grow", {}).get("steps", []):
            q = st["resection"]
            ck.expect(q["num_inliers"] <= q["num_common_points"] and set(q["shots"]) == set(st["images"]), "report", "%s: step %r" % (what, q))
    return report, recs


SIZES = [200, 95, 60]


def groups_(ck, n, fams):
    groups = [(SIZES[k], who) for k, who in enumerate(fams)]
    w = World(n, groups)
    run(ck, w, expected(w, groups, n), "tracks %r" % (groups,), tol=4e-3)
    a = orec.compute_image_pairs_sequential(w.data, w.tm)
    b = orec.compute_image_pairs(orec.tracking.all_common_tracks_with_features(w.tm), w.data)
    com = {(x, y): sum(num for num, who in groups if w.inst[x] in who and w.inst[y] in who) for x, y in itertools.combinations(w.images, 2)}
    ck.expect(set(map(tuple, a)) == set(map(tuple, b)) and [com[tuple(sorted(p))] for p in a] == [com[tuple(sorted(p))] for p in b], "pairs", "tracks %r: pairs %r and %r" % (groups, a, b))


def models_(ck, m, m2, rigged):
    kinds = [m] if m2 == m else [m, m2]
    w = World(4, [(120, range(4))], kinds=kinds, rigs=RIGPAIR if rigged else None)
    run(ck, w, [set(range(4))], "%r cameras%s" % (kinds, " in rigs" if rigged else ""), points=not rigged)


def settings_(ck, which):
    flags = dict(FLAGS[k] for k in which)
    w = World(5, [(120, range(5))], **flags)
    run(ck, w, [set(range(5))], "settings %r" % (flags,), tol=5e-3 if "bundle_max_iterations" in flags else 3e-3, absolute=flags.get("bundle_use_gps", True),
        points="bundle_outlier_filtering_type" not in flags)
    ck.expect((w.data.partial > 0) == bool(flags.get("save_partial_reconstructions")), "partial", "%r: %d partial reconstructions" % (flags, w.data.partial))


def names_(ck, k):
    perm = list(itertools.permutations("abcd"))[k]
    for groups in ([(120, (0, 1, 2, 3))], [(200, (0, 1, 2)), (60, (1, 2, 3))], [(200, (0, 1, 2)), (60, (1, 2, 3)), (60, (0, 3))]):
        w = World(4, groups, names=["%s.jpg" % c for c in perm])
        run(ck, w, expected(w, groups, 4), "images named %r with tracks %r" % (perm, groups))


def wrong_(ck, n, i, kind):
    groups = [(150, range(n))]
    robust = kind.endswith("robust")
    if kind == "all":
        wrong = [(i, 0, None)]
        parts = [set(range(n)) - {i}]
    elif kind == "both":
        wrong = [(i, 0, None), ((i + 1) % n, 0, None)]
        parts = [set(range(n)) - {i, (i + 1) % n}]
    elif kind.startswith("third"):
        wrong = [(i, 0, k) for k in range(0, 150, 3)]
        parts = [set(range(n))]
    else:  # in every image a part of its own
        wrong = [((i + j) % n, 0, k) for j in range(n) for k in range(j, 150, 9)]
        parts = [set(range(n))]
    cfg = {"five_point_algo_min_inliers": 60, "resection_min_inliers": 40} if kind in ("all", "both") else {}
    w = World(n, groups, wrong=wrong, **cfg, **({"triangulation_type": "ROBUST"} if robust else {}))
    # wrong observations that happen to be near the epipolar planes stay and pull
    run(ck, w, parts, "%s of image %d of %d wrong" % (kind, i, n), **({"tol": 2e-2} if robust else {}))


def rigs_(ck, m):
    """which images of the second camera of each rig have tracks"""
    w0 = World(4, [(120, range(4))], rigs=RIGPAIR, kinds=["perspective", "fisheye"])
    tm = pymap.TracksManager()
    for sid in w0.tm.get_shot_ids():
        if sid.endswith("_1") and not m >> w0.inst[sid] & 1:
            continue
        for tid, o in w0.tm.get_shot_observations(sid).items():
            tm.add_observation(sid, tid, o)
    for tid in w0.right:
        w0.right[tid] = {s for s in w0.right[tid] if s in tm.get_shot_ids()}
    w0.tm = w0.data.tm = tm
    run(ck, w0, [set(range(4))], "rigs with second images in tracks: %s" % bin(m), points=False)


def position_(ck, m):
    w = World(5, [(120, range(5))], missing_gps=[i for i in range(5) if i < 4 and m >> i & 1] + ([4] if m == 15 else []))
    run(ck, w, [set(range(5))], "without GPS: %s" % bin(m), absolute=m in (0, 1, 2, 4, 8), tol=5e-3)


def control_(ck, k):
    w = World(5, [(120, range(5))], gps=k == 3, bundle_use_gcp=True, **({"bundle_use_gps": False} if k == 3 else {}))
    for j, x in enumerate([(3, 2, 1), (-3, 1, -1), (0, -2, 2), (2, -1, -2), (-2, -2, 0)][:5 - k % 2]):
        g = pymap.GroundControlPoint()
        g.id = "g%d" % j
        lat, lon, alt = REF.to_lla(*x)
        g.lla = {"latitude": lat, "longitude": lon, "altitude": alt}
        g.has_altitude = True
        for sid in w.images:
            if (j + w.inst[sid]) % 4 == 3:
                continue
            o = pymap.GroundControlPointObservation()
            o.shot_id = sid
            o.projection = w.cam[sid].project(w.pose[sid].transform(np.array(x, float)))
            g.add_observation(o)
        w.data.gcps.append(g)
    run(ck, w, [set(range(5))], "control points, variant %d" % k, tol=3e-3)


def focal_(ck, k, m):
    """a wrong focal length is corrected by the data"""
    w = World(6, [(200, range(6))], kinds=[m])
    c = bascene.camera(m, "c0", 0.8 * (1 + 0.01 * k))
    w.data.cams["c0"] = c
    report, recs = w.run()
    ck.ev()
    ck.outcome(("focal", k, m))
    if partition(ck, w, report, recs, [set(w.images)], "focal %+d%%" % k):
        f = recs[0].cameras["c0"].focal
        ck.expect(abs(f - 0.8) < 0.004, "focal", "%s camera started with %g: focal %g instead of 0.8" % (m, c.focal, f))
        w.compare(ck, recs[0], "focal %+d%%" % k, tol=2e-2, points=False)


def metadata_(ck, k):
    """reconstruction from poses of the metadata"""
    rigged = k % 3 == 2
    w = World(5, [(150, range(5))], rigs=[((0, 0, 0), (0, 0, 0)), RIGPAIR[1]] if rigged else None, kinds=[["perspective"], ["fisheye"], ["brown"]][k % 3],
              bundle_use_gps=True, processes=1)
    turn = [0.0, 0.01, 0.02, 0.03][k // 3]
    for n, sid in enumerate(w.images):
        R = w.pose[sid].get_rotation_matrix()
        R = rod(np.array([math.sin(n), math.cos(n), 0.5]) * turn) @ R
        w.data.exifs[sid]["opk"] = opk(R)
    report, recs = w.run("triangulation")
    what = "%s from metadata, turned by %g" % ("rigs" if rigged else "images", turn)
    ck.ev()
    ck.outcome(("metadata", k))
    ck.expect([set(r.shots.keys()) for r in recs] == [set(w.images)], "partition", "%s: %r" % (what, [sorted(r.shots.keys()) for r in recs]))
    w.compare(ck, recs[0], what, tol=3e-3)


def opk(R):
    """omega, phi, kappa (degrees) of a camera with world-to-camera rotation R"""
    Rc = R.T @ np.diag([1, -1, -1])
    phi = math.asin(Rc[0, 2])
    return {"omega": math.degrees(math.atan2(-Rc[1, 2], Rc[2, 2])), "phi": math.degrees(phi), "kappa": math.degrees(math.atan2(-Rc[0, 1], Rc[0, 0]))}


def pairs_(ck, which):
    """pairs at the limit of common tracks, and with rays that a rotation explains"""
    for n in range(48, 53):
        groups = [(n, (0, 1)), (2 * n, (2, 3))]
        w = World(4, groups, processes=1 + which % 2)
        want = [{2, 3}] + ([{0, 1}] if n >= 50 else [])
        if which < 2:
            run(ck, w, want, "%d common tracks, %d processes" % (n, 1 + which % 2), tol=1e-2)
        else:
            for least in (n - 1, n, n + 1):
                a = {tuple(p) for p in orec.compute_image_pairs_sequential(w.data, w.tm, least)}
                ck.ev()
                ck.expect({tuple(sorted(p)) for p in a} == {("im2", "im3")} | ({("im0", "im1")} if least <= n else set()), "pair-limit", "%d common tracks, limit %d: pairs %r" % (n, least, a))
    for n, out in itertools.product((50, 100, 333), (0, 1, 14, 15, 16, 29, 30, 31, 50)):
        ck.ev()
        ck.expect(orec.pairwise_reconstructability(n, n - out) == (out if out / n >= 0.3 else 0), "score", "%d tracks, %d not explained" % (n, out))


def resect_(ck, k, rigged):
    """adding one image from so many right and wrong points"""
    n = 4
    for right in range(0, 13):
        for bad in (0, 2, 5):
            if right + bad == 0:
                continue
            for least in (5, 8, 10):
                groups = [(40, (0, 1, 2)), (right + bad, (0, 1, 2, 3))]
                np.random.seed(k)
                w = World(n, groups, rigs=RIGPAIR if rigged else None, wrong=[(3, 1, j) for j in range(right, right + bad)], kinds=[MODELS[k % len(MODELS)]])
                if rigged:  # the image of the second camera is not in the tracks
                    tm = pymap.TracksManager()
                    for sid in w.tm.get_shot_ids():
                        for tid, o in w.tm.get_shot_observations(sid).items():
                            if sid != "im3_1":
                                tm.add_observation(sid, tid, o)
                    w.tm = w.data.tm = tm
                rec = pymap and orec.types.Reconstruction()
                rec.reference = REF
                rec.cameras = w.data.cams
                rec.rig_cameras = w.data.load_rig_cameras()
                assign = rig.rig_assignments_per_image(w.data.assign)
                new = "im3_0" if rigged else "im3"
                for sid in w.images:
                    if w.inst[sid] < 3 and sid not in rec.shots:
                        orec.add_shot(w.data, rec, assign, sid, w.pose[sid])
                for tid, x in w.X.items():
                    rec.create_point(tid, x)
                    for sid in w.images:
                        if w.inst[sid] < 3:
                            rec.add_observation(sid, tid, w.tm.get_observation(sid, tid))
                links = {tid: {x.id for x in lm.get_observations()} for tid, lm in rec.points.items()}
                ok, shots, rep = orec.resect(w.data, w.tm, rec, new, 0.004, least)
                what = "%s%s, %d right and %d wrong points, at least %d" % (w.cams[0].projection_type, " rig" if rigged else "", right, bad, least)
                ck.ev()
                ck.outcome((k, rigged, right, bad, least))
                good = right >= least and right + bad >= 5
                ck.expect(bool(ok) == good, "resect", "%s: %r, %r" % (what, ok, rep))
                ck.expect(rep["num_common_points"] == right + bad, "resect-report", "%s: %r" % (what, rep))
                mates = {"im3_0", "im3_1"} if rigged else {"im3"}
                now = {tid: {x.id for x in lm.get_observations()} for tid, lm in rec.points.items()}
                if ok and good:
                    ck.expect(set(shots) == mates and rep["num_inliers"] == right, "resect-report", "%s: added %r, %r" % (what, shots, rep))
                    for sid in mates:
                        p, q = rec.shots[sid].pose, w.pose[sid]
                        ck.expect(np.allclose(p.get_cam_to_world(), q.get_cam_to_world(), atol=0.3), "resect-pose", "%s: %s at\n%r instead of\n%r" % (what, sid, p.get_cam_to_world(), q.get_cam_to_world()))
                        ck.expect(rec.shots[sid].metadata.gps_position.has_value and np.allclose(rec.shots[sid].metadata.gps_position.value, PLACES[3], atol=1e-4), "resect-metadata", "%s: %s" % (what, sid))
                    for tid in now:
                        add = {new} if int(tid) >= 1000 and int(tid) - 1000 < right else set()
                        ck.expect(now[tid] == links[tid] | add, "resect-links", "%s: point %s is seen by %r" % (what, tid, now[tid]))
                else:
                    ck.expect(now == links and not shots and not mates & set(rec.shots.keys()), "resect-untouched", "%s: the reconstruction changed" % what)


def start_(ck, n, kind):
    """the first two images"""
    for pair in itertools.combinations(range(4), 2):
        for model in ("perspective", "fisheye", "spherical", "brown"):
            wrong = [(pair[1], 0, k) for k in range(0, n, 5)] if kind.endswith("wrong") else []
            if model == "spherical" and kind.startswith("plane"):
                continue
            w = World(4, [(n, pair)], kinds=[model], wrong=wrong, gps=False)
            a, b = ("im%d" % i for i in pair)
            if kind.startswith("plane") or kind == "turn":
                # all points on a plane, or a camera that turns only
                tm = pymap.TracksManager()
                if kind == "turn":
                    w.pose[b] = bascene.pose(rod((0.1, 0.2, 0.05)) @ w.pose[a].get_rotation_matrix(), w.pose[a].get_origin())
                for tid in w.X:
                    if kind != "turn":
                        w.X[tid] = np.array([w.X[tid][0], 0.3 * w.X[tid][0] + 0.2 * w.X[tid][2], w.X[tid][2]])
                    for sid in (a, b):
                        xy = w.cam[sid].project(w.pose[sid].transform(w.X[tid]))
                        if (sid, tid) in w.wrong:
                            h = (int(tid) * 7919 * 2654435761 >> 7) % 65536 / 10430.0
                            xy = xy + 0.25 * np.array([math.cos(h), math.sin(h)])
                        tm.add_observation(sid, tid, pymap.Observation(xy[0], xy[1], 0.004, 1, 2, 3, int(tid)))
                w.tm = w.data.tm = tm
            p1, p2 = orec._get_common_feature_arrays(w.tm, a, b)
            with contextlib.redirect_stdout(sio.StringIO()):
                rec, report = orec.bootstrap_reconstruction(w.data, w.tm, a, b, p1, p2)
            what = "%s, %d points (%s), images %r" % (model, n, kind, pair)
            ck.ev()
            ck.outcome((n, kind, pair, model))
            ck.expect(tuple(report["image_pair"]) == (a, b) and report["common_tracks"] == n, "start-report", "%s: %r" % (what, report))
            good = n - len({t for _, t in w.wrong})
            if kind == "turn" or n < 20:
                ck.expect(rec is None, "start-few", "%s: a reconstruction of %d points" % (what, 0 if rec is None else len(rec.points)))
                continue
            if good < 22 and rec is None:
                continue
            ck.expect(rec is not None, "start", "%s: no reconstruction, %r" % (what, report))
            if rec is None:
                continue
            ck.expect(set(rec.shots.keys()) == {a, b}, "start-shots", "%s: %r" % (what, sorted(rec.shots.keys())))
            got = {tid: {x.id for x in lm.get_observations()} for tid, lm in rec.points.items()}
            want = {tid: {a, b} for tid in w.X if (b, tid) not in w.wrong and w.angle(tid, (a, b)) > math.radians(1.2)}
            near = {tid for tid in w.X if w.angle(tid, (a, b)) <= math.radians(1.2)}
            extra = {t for t in got if t not in want and t not in near}
            ck.expect(all(got.get(t) == v for t, v in want.items()), "start-missing", "%s: points %r missing" % (what, [t for t in want if got.get(t) != want[t]]))
            ck.expect(len(extra) <= len(w.wrong) // 3, "start-extra", "%s: points %r although wrong" % (what, extra))
            # relative pose up to scale
            p, q = rec.shots[b].pose.compose(rec.shots[a].pose.inverse()), w.pose[b].compose(w.pose[a].inverse())
            d = lambda t: t / np.linalg.norm(t)
            ck.expect(np.allclose(p.get_rotation_matrix(), q.get_rotation_matrix(), atol=5e-2) and np.allclose(d(p.translation), d(q.translation), atol=1e-1), "start-pose",
                      "%s: relative pose %r %r instead of %r %r" % (what, p.rotation, d(p.translation), q.rotation, d(q.translation)))
