"""C18: triangulation gives the point its rays meet in, and accepts it exactly when it should."""
import itertools
import math

import numpy as np
from opensfm import config as oconfig
from opensfm import pygeometry, pymap, reconstruction as orec, types

LEVEL = "exploration"
RULE = ("all pairs and triples of centres of a lattice x points x bearing errors x thresholds; all scenes of up to four shots of "
        "three camera types with every choice of a wrong observation, and for robust triangulation every order of trying the "
        "pairs; all places of the only pair of views that differ enough, and of one wrong ray, among up to eight; non-trivial: distinct (centres, point, error) configurations")
ASSUMPTIONS = ["configurations within 1e-7 of a threshold may go either way", "DLT is decided for bearings not in the image plane direction (|z| > 0.05)"]
TOL = 1e-7

CENTERS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-2, 1, 0.5), (0.01, 0, 0), (0, 0, 0)]
POINTS = [(0, 0, 5), (3, -2, 4), (0.5, 0.5, 0.5), (0, 0, -4), (50, 20, 80), (2, 0, 0), (-1, -1, 1e-3), (400, 0, 300)]
THR = 0.006


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


def angle(u, v):
    return math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v)))


def tilt(b, kind):
    """bearing b turned by a small angle around one of two axes"""
    if not kind:
        return b
    amount, axis = kind
    a = unit(np.cross(b, [0.3, -0.5, 0.8]))
    if axis:
        a = np.cross(b, a)
    return unit(b * math.cos(amount) + np.cross(a, b) * math.sin(amount))


ERRS = [None, (0.5 * THR, 0), (1.4 * THR, 1), (3 * THR, 0), (math.pi, 0)]


def mid(cs, bs):
    A = np.zeros((3, 3))
    y = np.zeros(3)
    for c, b in zip(cs, bs):
        P = np.eye(3) - np.outer(b, b)
        A += P
        y += P @ c
    return np.linalg.solve(A, y)


def verdict(X, cs, bs, thrs, min_angle, min_depth):
    """True/False, or None when within TOL of a border"""
    best = False
    border = False
    for i, j in itertools.combinations(range(len(bs)), 2):
        a = angle(bs[i], bs[j])
        m = min(a - min_angle, math.pi - min_angle - a)
        border |= abs(m) < TOL
        best |= m >= 0
    if border:
        return None
    if not best:
        return False
    ok = True
    for c, b, t in zip(cs, bs, thrs):
        d = X - c
        a, dep = angle(d, b), float(np.dot(d, b))
        if abs(a - t) < TOL or abs(dep - min_depth) < TOL:
            return None
        ok &= a <= t and dep >= min_depth
    return ok


def rot(k):
    """a few rotations, none of them special"""
    a = [(0, 0, 0), (0.3, -0.2, 0.5), (1.4, 0.3, -0.2), (-0.4, 2.0, 0.1), (0.1, 0.1, 3.0)][k]
    v = np.asarray(a, float)
    t = np.linalg.norm(v)
    if t == 0:
        return np.eye(3)
    k = v / t
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K


def cases(ck):
    out = []
    for n in (2, 3):
        for cs in itertools.combinations(range(len(CENTERS)), n):
            out += [["solve", list(cs), p] for p in range(len(POINTS))]
    if not ck.quick:
        out += [["solve", list(cs), p] for cs in itertools.combinations(range(len(CENTERS)), 4) for p in range(len(POINTS))]
    out += [["many", n, i, j] for n in ((4, 6) if ck.quick else (4, 5, 6, 8)) for j in range(n) for i in range(j)]
    out += [["pairs", k] for k in range(5)]
    out += [["scene", cam, n, p] for cam in ("perspective", "fisheye", "spherical") for n in (1, 2, 3, 4) for p in range(3)]
    out += [["noisy", cam, n, first] for cam in ("perspective", "spherical") for n in (3, 4) for first in range(7)]
    out += [["book", i] for i in range(16)]
    return out


def check(ck, case):
    {"solve": solve, "pairs": pairs, "scene": scene_, "book": book, "noisy": noisy, "many": many}[case[0]](ck, *case[1:])


def solve(ck, ids, pi):
    cs = np.array([CENTERS[i] for i in ids], float)
    p = np.array(POINTS[pi], float)
    if any(np.linalg.norm(p - c) < 1e-9 for c in cs):
        return
    exact = [unit(p - c) for c in cs]
    rots = [rot((i + pi) % 5) for i in range(len(ids))]
    errs = {2: ERRS, 3: ERRS[::2] + [ERRS[3]] if ck.quick else ERRS}.get(len(ids), ERRS[:3])
    for kinds in itertools.product(errs, repeat=len(ids)):
        for min_angle, min_depth, thr in [(math.radians(1), 1e-3, [THR] * len(ids)), (math.radians(20), 1e-3, [THR] * len(ids)),
                                          (math.radians(0.05), 2.0, [THR * (1 + i) for i in range(len(ids))])]:
            ck.outcome((ids, pi, kinds))
            judge(ck, cs, p, rots, exact, kinds, min_angle, min_depth, thr)


def judge(ck, cs, p, rots, exact, kinds, min_angle, min_depth, thr):
    """triangulates the bearings in both ways and compares acceptance and place with the definition"""
    bs = np.array([tilt(b, k) for b, k in zip(exact, kinds)])
    clean = all(k is None for k in kinds)
    what = "centres %r, point %r, errors %r, min angle %.4g, min depth %g, thresholds %r" % (cs.tolist(), p.tolist(), kinds, min_angle, min_depth, thr)
    ck.ev()
    ok, X = pygeometry.triangulate_bearings_midpoint(cs, bs, thr, min_angle, min_depth)
    try:
        ref = mid(cs, bs)
        cond = np.linalg.cond(sum(np.eye(3) - np.outer(b, b) for b in bs))
    except np.linalg.LinAlgError:
        ref, cond = None, math.inf
    if cond < 1e7:
        want = verdict(ref, cs, bs, thr, min_angle, min_depth)
        if want is not None:
            ck.expect(bool(ok) == want, "midpoint-accept", "%s: accepted=%r instead of %r" % (what, ok, want))
        if ok:
            ck.expect(np.allclose(X, ref, rtol=1e-12 * cond, atol=1e-12 * cond), "midpoint", "%s: %r instead of %r" % (what, X.tolist(), ref.tolist()))
            if clean:
                ck.expect(np.allclose(X, p, rtol=1e-12 * cond, atol=1e-12 * cond), "midpoint-exact", "%s: %r" % (what, X.tolist()))
    elif ok:
        ck.expect(verdict(np.asarray(X), cs, bs, thr, min_angle, min_depth) is not False, "midpoint-accept", "%s: accepted %r" % (what, X))
    # DLT, in camera coordinates
    Rts = np.array([np.hstack([R, (-R @ c)[:, None]]) for R, c in zip(rots, cs)])
    cb = np.array([R @ b for R, b in zip(rots, bs)])
    if np.abs(cb[:, 2]).min() > 0.05:
        okd, Xd = pygeometry.triangulate_bearings_dlt(Rts, cb, thr[0], min_angle, min_depth)
        A = np.array([r for P, b in zip(Rts, cb) for r in (b[0] * P[2] - b[2] * P[0], b[1] * P[2] - b[2] * P[1])])
        _, s, vh = np.linalg.svd(A)
        if s[2] > 1e-6 * s[0]:
            refd = vh[3][:3] / vh[3][3] if abs(vh[3][3]) > 1e-9 else None
            if refd is not None and s[2] - s[3] > 1e-4 * s[0]:
                want = verdict(refd, cs, bs, [thr[0]] * len(cs), min_angle, min_depth)
                if want is not None:
                    ck.expect(bool(okd) == want, "dlt-accept", "%s: DLT accepted=%r instead of %r" % (what, okd, want))
                if okd:
                    ck.expect(np.allclose(Xd, refd, rtol=1e-6, atol=1e-6), "dlt", "%s: DLT gives %r instead of %r" % (what, np.asarray(Xd).tolist(), refd.tolist()))
                    if clean:
                        ck.expect(np.allclose(Xd, p, rtol=1e-6, atol=1e-6), "dlt-exact", "%s: DLT gives %r" % (what, np.asarray(Xd).tolist()))
    if ok and min_depth < 1:
        cost0 = cost(cs, bs, np.asarray(X))
        for start in (np.asarray(X), np.asarray(X) + 0.02 * np.linalg.norm(np.asarray(X) - cs[0]) * np.array([0.5, -0.7, 0.5])):
            Y = pygeometry.point_refinement(cs, bs, start, 20)
            ck.expect(cost(cs, bs, Y) <= cost0 + 1e-9, "refine", "%s: refinement from %r ends in %r, worse than %r" % (what, start.tolist(), Y.tolist(), X))
            if clean:
                ck.expect(cost(cs, bs, Y) < 1e-8 and np.allclose(Y, p, rtol=1e-2, atol=1e-3), "refine-exact", "%s: refinement from %r gives %r" % (what, start.tolist(), Y.tolist()))


def many(ck, n, i, j):
    """n views, of which only i and j see the point from directions that differ enough, and at most one is wrong"""
    p = np.array([0.5, -0.3, 6.0])
    cs = np.array([[0, 0, 0.1 * k] for k in range(n)], float)
    cs[:, :2] = p[:2] * cs[:, 2:] / 6  # on the line from the origin to the point
    cs[i, 0] += 0.4
    cs[j, 0] -= 0.4
    exact = [unit(p - c) for c in cs]
    wide = angle(exact[i], exact[j])
    rots = [rot((k + i) % 5) for k in range(n)]
    for bad in [None] + list(range(n)):
        for err in ERRS[1:] if bad is not None else [None]:
            kinds = tuple(err if k == bad else None for k in range(n))
            for min_angle in (0.8 * wide, 1.1 * wide):
                for thr in ([THR] * n, [THR * (3 if k == bad else 1) for k in range(n)]):
                    ck.outcome((n, i, j, bad, err, min_angle > wide, thr[0] == thr[-1]))
                    judge(ck, cs, p, rots, exact, kinds, min_angle, 1e-3, thr)


def cost(cs, bs, X):
    d = X - cs
    n = np.linalg.norm(d, axis=1)[:, None]
    return float((((d / n) - bs) ** 2).sum())


def pairs(ck, k):
    """two-view versions for arrays of bearings: the second view is rotated and translated"""
    R = rot(k)
    for t in [(1, 0, 0), (0, -2, 0.5), (0.1, 0.2, -0.05)]:
        t = np.array(t, float)
        P = [np.array(p, float) for p in POINTS if np.linalg.norm(np.array(p) - t) > 1e-9]
        b1 = np.array([tilt(unit(p), e) for p in P for e in ERRS])
        w2 = np.array([tilt(unit(p - t), e2) for p in P for e2 in [ERRS[0], ERRS[2], ERRS[3], ERRS[1], None]])
        # a parallel pair
        b1 = np.vstack([b1, unit((1, 2, 3))])
        w2 = np.vstack([w2, unit((1, 2, 3))])
        b2 = w2 @ R
        got = pygeometry.triangulate_two_bearings_midpoint_many(b1, b2, R, t)
        ck.expect(len(got) == len(b1), "many-size", "%d results for %d pairs" % (len(got), len(b1)))
        for i, (ok, X) in enumerate(got):
            u, v = b1[i], w2[i]
            ck.ev()
            ck.outcome((k, tuple(t), i))
            c = float(u @ v)
            det = 1 - c * c
            if abs(det - 1e-10) < 1e-11:
                continue
            ck.expect(bool(ok) == (det > 1e-10), "many-accept", "pair %r %r: ok=%r" % (u.tolist(), v.tolist(), ok))
            if ok and det > 1e-8:
                s = (t @ u - c * (t @ v)) / det
                q = (c * (t @ u) - t @ v) / det
                ref = ((s * u) + (t + q * v)) / 2
                ck.expect(np.allclose(X, ref, rtol=1e-7, atol=1e-7), "many", "rays %r and %r from %r: %r instead of %r" % (u.tolist(), v.tolist(), t.tolist(), X, ref.tolist()))
        ang = pygeometry.epipolar_angle_two_bearings_many(b1, b2, R, t)
        ck.expect(ang.shape == (len(b1), len(b2)), "epipolar-shape", "shape %r" % (ang.shape,))
        for i in range(0, len(b1), 3):
            for j in range(0, len(b2), 2):
                n1, n2 = np.cross(t, b1[i]), np.cross(t, w2[j])
                if min(np.linalg.norm(n1), np.linalg.norm(n2)) < 1e-6:
                    continue
                want = math.asin(min(1.0, (abs(unit(n1) @ w2[j]) + abs(unit(n2) @ b1[i])) / 2))
                ck.ev()
                ck.expect(abs(ang[i, j] - want) < 1e-7, "epipolar", "epipolar angle of %r and %r is %r instead of %r" % (b1[i].tolist(), w2[j].tolist(), ang[i, j], want))


ORIG = [(0, 0, 0), (2, 0.2, 0.1), (0.3, 1.8, -0.2), (-1.5, -1.2, 0.3)]
TARGET = [(0.4, 0.3, 6.0), (-1.0, 0.7, 9.0), (1.5, -1.0, 4.5)]


def camera(kind):
    C = pygeometry.Camera
    c = {"perspective": lambda: C.create_perspective(0.9, 0.05, -0.01), "fisheye": lambda: C.create_fisheye(0.6, 0.02, 0.01), "spherical": C.create_spherical}[kind]()
    c.id, c.width, c.height = "cam", 1000, 800
    return c


def pose(i, target=(0, 0, 7)):
    """a camera at ORIG[i] looking roughly at the target, rolled"""
    z = unit(np.array(target, float) - np.array(ORIG[i]))
    x = unit(np.cross([0.2 * i, 1, 0.1], z))
    R = np.array([x, np.cross(z, x), z])
    c, s = math.cos(1.1 * i), math.sin(1.1 * i)
    R = np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]]) @ R
    p = pygeometry.Pose()
    p.set_rotation_matrix(R)
    p.set_origin(np.array(ORIG[i], float))
    return p


def scene(kind, n, target, wrong=(), extra=0):
    """a reconstruction of n shots and a table with one track seen by all (and extra unknown shots)"""
    rec = types.Reconstruction()
    rec.add_camera(camera(kind))
    tm = pymap.TracksManager()
    for i in range(n):
        s = rec.create_shot("s%d" % i, "cam", pose(i))
        px = s.project(np.array(target, float))
        if i in wrong:
            X = np.array(target, float)
            nrm = np.cross(X - np.array(ORIG[i]), np.array(ORIG[(i + 1) % n]) - np.array(ORIG[i]) if n > 1 else [1, 0, 0])
            if n > 2:
                nrm = nrm / np.linalg.norm(nrm) + unit(np.cross(X - np.array(ORIG[i]), np.array(ORIG[(i + 2) % n]) - np.array(ORIG[i])))
            px = s.project(X + 1.2 * unit(nrm))
        tm.add_observation("s%d" % i, "t", pymap.Observation(px[0], px[1], 0.01, 1, 2, 3, i, 1, 1))
    for i in range(extra):
        tm.add_observation("gone%d" % i, "t", pymap.Observation(0.1, 0.1, 0.01, 1, 2, 3, i, 1, 1))
    return rec, tm


class Draws:
    """numpy's random numbers, chosen so that the given pairs are drawn in order"""

    def __init__(self, order, n):
        self.order, self.n, self.k = order, n, 0

    def __enter__(self):
        self.old = np.random.rand
        np.random.rand = self.rand
        return self

    def __exit__(self, *a):
        np.random.rand = self.old

    def rand(self, *shape):
        v = (self.order[self.k % len(self.order)] + 0.5) / self.n
        self.k += 1
        return v if not shape else np.full(shape, v)


def stored(rec):
    return {pid: (p.coordinates, {s.id: o for s, o in p.get_observations().items()}) for pid, p in rec.points.items()}


def scene_(ck, kind, n, ti):
    target = TARGET[ti]
    for wrong in [()] + ([(i,) for i in range(n)] if n > 1 else []):
        for extra in (0, 1):
            rec, tm = scene(kind, n, target, wrong, extra)
            bs, cs = [], []
            for i in range(n):
                s = rec.shots["s%d" % i]
                b = s.camera.pixel_bearing(np.array(tm.get_observation("s%d" % i, "t").point))
                bs.append(s.pose.get_rotation_matrix().T @ b)
                cs.append(np.array(ORIG[i], float))
            for args in [(THR, 2.0, 0.001, 10), (THR, 2.0, 30.0, 10), (THR, 89.0, 0.001, 10), (THR, 2.0, 0.001, 0)]:
                for mode in ("triangulate", "triangulate_dlt"):
                    rec, tm = scene(kind, n, target, wrong, extra)
                    orec.TrackTriangulator(rec, orec.TrackHandlerTrackManager(tm, rec)).__getattribute__(mode)("t", *args)
                    got = stored(rec)
                    what = "%s, %s camera, %d shots, wrong %r, %r" % (mode, kind, n, wrong, args)
                    ck.ev()
                    ck.outcome((kind, n, ti, wrong, extra, args, mode))
                    want = False
                    if n > 1:
                        want = verdict(mid(cs, bs), cs, bs, [THR] * n, math.radians(args[1]), args[2])
                        if wrong:
                            want = want if mode == "triangulate" else False
                    if want is not None:
                        ck.expect((len(got) == 1) == want, mode + "-accept", "%s: %s" % (what, "accepted" if got else "rejected"))
                    if got and not wrong:
                        X, obs = got["t"]
                        ck.expect(np.allclose(X, target, atol=1e-4 * np.linalg.norm(target)), mode, "%s: %r instead of %r" % (what, X.tolist(), target))
                        ck.expect(set(obs) == {"s%d" % i for i in range(n)} and all(o == int(s[1:]) for s, o in obs.items()), mode + "-obs", "%s: observations %r" % (what, sorted(obs)))
            # robust: every order of the pairs
            npairs = n * (n - 1) // 2
            orders = list(itertools.permutations(range(npairs))) if npairs <= 3 or not ck.quick else \
                [o for o in itertools.permutations(range(npairs)) if sum(a > b for a, b in itertools.combinations(o, 2)) <= 2 or sum(a < b for a, b in itertools.combinations(o, 2)) <= 1]
            for order in orders or [()]:
                rec, tm = scene(kind, n, target, wrong, extra)
                with Draws(order or (0,), max(npairs, 1)):
                    orec.TrackTriangulator(rec, orec.TrackHandlerTrackManager(tm, rec)).triangulate_robust("t", THR, 2.0, 0.001, 10)
                got = stored(rec)
                what = "robust, %s camera, %d shots, wrong %r, pairs tried in order %r" % (kind, n, wrong, order)
                ck.ev()
                ck.outcome((kind, n, ti, wrong, extra, order))
                good = [i for i in range(n) if i not in wrong]
                ck.expect((len(got) == 1) == (len(good) > 1), "robust-accept", "%s: %s" % (what, "accepted" if got else "rejected"))
                if got:
                    X, obs = got["t"]
                    ck.expect(set(obs) == {"s%d" % i for i in good}, "robust-obs", "%s: observations %r" % (what, sorted(obs)))
                    ck.expect(np.allclose(X, target, atol=1e-4 * np.linalg.norm(target)), "robust", "%s: %r instead of %r" % (what, X.tolist(), target))


def noisy(ck, kind, n, first):
    """robust triangulation of observations with errors: a point is stored with exactly the rays that pass near it"""
    table = [None, (0.6 * THR, 0), (0.6 * THR, 1), (0.95 * THR, 0), (1.3 * THR, 1), (1.9 * THR, 0), (-1.2 * THR, 0)]
    npairs = n * (n - 1) // 2
    for rest in itertools.product(range(len(table)), repeat=n - 1):
        if n == 4 and (first + sum(rest)) % 3:
            continue
        errs = [table[k] for k in (first,) + rest]
        for ti in (0, 2):
            for start in range(npairs):
                rec, tm0 = scene(kind, n, TARGET[ti])
                tm = pymap.TracksManager()
                bs = []
                for i in range(n):
                    s = rec.shots["s%d" % i]
                    b = tilt(unit(np.array(TARGET[ti]) - np.array(ORIG[i])), errs[i])
                    px = s.project(np.array(ORIG[i], float) + 5 * b)
                    tm.add_observation("s%d" % i, "t", pymap.Observation(px[0], px[1], 0.01, 1, 2, 3, i, 1, 1))
                    bs.append(b)
                order = [(start + k) % npairs for k in range(npairs)]
                with Draws(order, npairs):
                    orec.TrackTriangulator(rec, orec.TrackHandlerTrackManager(tm, rec)).triangulate_robust("t", THR, 2.0, 0.001, 10)
                got = stored(rec)
                what = "robust, %s camera, %d shots, errors %r, pairs tried in order %r" % (kind, n, errs, order)
                ck.ev()
                ck.outcome((kind, n, first, rest, ti, start, sorted(got["t"][1]) if got else None))
                if not got:
                    continue
                X, obs = got["t"]
                gap = [np.linalg.norm(unit(X - np.array(ORIG[i], float)) - bs[i]) for i in range(n)]
                for i in range(n):
                    if abs(gap[i] - THR) > 1e-5:
                        ck.expect(("s%d" % i in obs) == (gap[i] < THR), "robust-near", "%s: the ray of s%d is %r from the point and %s" % (
                            what, i, gap[i], "stored" if "s%d" % i in obs else "not stored"))
        ck.beat()


def book(ck, present):
    """which tracks are triangulated: those of the given shots, in two known shots, without a point yet"""
    seen = {"t0": (0, 1), "t1": (1, 2, 3), "t2": (0, 3), "t3": (2,), "t4": (0, 1, 2, 3), "t5": (1, 3)}
    ids = [i for i in range(4) if present >> i & 1]
    for kind in ("ROBUST", "FULL"):
        cfg = oconfig.default_config()
        cfg["triangulation_type"] = kind
        for new in itertools.chain.from_iterable(itertools.combinations(range(5), r) for r in range(3)):
            for has in ((), ("t4",), ("t0", "t5"), ("zz",)):
                rec, _ = scene("perspective", 0, TARGET[0])
                tm = pymap.TracksManager()
                full, _ = scene("perspective", 4, TARGET[0])
                pts = {}
                for k, (t, ss) in enumerate(sorted(seen.items())):
                    pts[t] = np.array(TARGET[k % 3], float) + 0.1 * k
                    for i in ss:
                        px = full.shots["s%d" % i].project(pts[t])
                        tm.add_observation("s%d" % i, t, pymap.Observation(px[0], px[1], 0.01, 1, 2, 3, 10 * k + i, 1, 1))
                for i in ids:
                    rec.create_shot("s%d" % i, "cam", pose(i))
                for t in has:
                    rec.create_point(t, np.array([1.0, 2.0, 3.0]))
                what = "shots %r, new %r, points %r, %s" % (ids, new, has, kind)
                np.random.seed(1)
                orec.triangulate_shot_features(tm, rec, {"s%d" % i for i in new}, cfg)
                want = set(has)
                for t, ss in seen.items():
                    if any(i in ss for i in new) and len([i for i in ss if i in ids]) >= 2 and t not in has:
                        want.add(t)
                got = stored(rec)
                ck.ev()
                ck.outcome((present, kind, new, has))
                ck.expect(set(got) == want, "tracks", "%s: points %r instead of %r" % (what, sorted(got), sorted(want)))
                for t in set(got) & set(seen) - set(has):
                    ck.expect(np.allclose(got[t][0], pts[t], atol=1e-4 * 9), "tracks-point", "%s: %s at %r instead of %r" % (what, t, got[t][0], pts[t]))
                    ck.expect(set(got[t][1]) == {"s%d" % i for i in seen[t] if i in ids}, "tracks-obs", "%s: %s seen by %r" % (what, t, sorted(got[t][1])))
                for t in has:
                    ck.expect(got.get(t) is not None and got[t][0].tolist() == [1, 2, 3] and not got[t][1], "tracks-kept", "%s: point %s became %r" % (what, t, got.get(t)))
                if new == ():
                    for t in has:
                        if ids and t in seen:
                            pass
                    np.random.seed(1)
                    rep = orec.retriangulate(tm, rec, cfg)
                    got = stored(rec)
                    want2 = {t for t, ss in seen.items() if len([i for i in ss if i in ids]) >= 2}
                    ck.expect(set(got) == want2, "retriangulate", "%s: retriangulated %r instead of %r" % (what, sorted(got), sorted(want2)))
                    for t in set(got) & want2:
                        ck.expect(np.allclose(got[t][0], pts[t], atol=1e-4 * 9) and set(got[t][1]) == {"s%d" % i for i in seen[t] if i in ids}, "retriangulate-point", "%s: %s is %r" % (what, t, got[t]))
                    ck.expect(rep["num_points_before"] == len(want) and rep["num_points_after"] == len(want2), "retriangulate-report", "%s: report %r" % (what, rep))
                    for s in rec.shots.values():
                        ck.expect({p.id for p in s.get_valid_landmarks()} == {t for t, ss in seen.items() if int(s.id[1:]) in ss and t in want2}, "retriangulate-links", "%s: links of %s" % (what, s.id))
