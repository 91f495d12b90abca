"""C23: between the steps of a reconstruction, exactly the bad observations and points go, and counts, colours, gates and links are exact."""
import itertools
import math

import numpy as np
from opensfm import config as oconfig, geo, pygeometry, pymap, pysfm, reconstruction as orec, types

import c13
from scene import rod

LEVEL = "exploration"
RULE = ("all assignments of error sizes to the observations of small scenes x filters x selections of points; all sightings of small scenes x selections for counts; "
        "all histories of growth for the gates; all point layouts of a lattice for the point filters; non-trivial: distinct assignments, sightings or histories")
ASSUMPTIONS = ["values within 1e-9 (relative) of a threshold may go either way", "no antiparallel rays"]
REF = geo.TopocentricConverter(47.0, 8.5, 300.0)


def cfg(**kw):
    c = oconfig.default_config()
    c.update(kw)
    return c


def mkcam(kind, cid="c"):
    if kind == "spherical":
        c = pygeometry.Camera.create_spherical()
        c.width, c.height = 2000, 1000
    elif kind == "fisheye":
        c = pygeometry.Camera.create_fisheye(0.6, -0.05, 0.01)
        c.width, c.height = 800, 600
    else:
        c = pygeometry.Camera.create_perspective(0.9, -0.1, 0.02)
        c.width, c.height = 800, 600
    c.id = cid
    return c


def pose(aa, c):
    p = pygeometry.Pose()
    p.set_rotation_matrix(rod(aa))
    p.set_origin(np.array(c, float))
    return p


def ob(k, xy=(0.0, 0.0), color=(1, 2, 3)):
    return pymap.Observation(xy[0], xy[1], 1.0, color[0], color[1], color[2], k)


def rows(rec):
    return {lid: {s.id for s in lm.get_observations()} for lid, lm in rec.points.items()}


def cases(ck):
    out = [["outliers", kinds, npts, mode, sel] for kinds, npts in ((["p", "p"], 2), (["p", "p", "p"], 1), (["p", "s", "p"], 1), (["s", "s"], 2), (["p", "p", "s", "p"], 1))
           for mode in ("FIXED", "AUTO", "NONE") for sel in ("all", "list", "dict")]
    if not ck.quick:
        out += [["outliers", k, n, mode, "all"] for k, n in ((["p", "p", "p"], 2), (["p", "s"], 3), (["s", "p", "s"], 2)) for mode in ("FIXED", "AUTO")]
    out += [["counts", i] for i in range(8)]
    out += [["gates", i] for i in range(4)]
    out += [["angles", kind, n] for kind in ("perspective", "fisheye", "spherical") for n in (1, 2, 3)]
    out += [["condition", kind, n] for kind in ("perspective", "fisheye", "spherical", "mixed") for n in range(4 if ck.quick else 12)]
    out += [["isolated", i] for i in range(12 if ck.quick else 40)]
    out += [["realign", i] for i in range(16)]
    out += [["align", i] for i in range(8)]
    out += [["neighbors", i] for i in range(8)]
    out += [["compass", i] for i in range(4)]
    out += [["prior", i] for i in range(6)]
    return out


def check(ck, case):
    globals()[case[0] + "_"](ck, *case[1:])


# ---------------------------------------------------------------- outliers
def outliers_(ck, kinds, npts, mode, sel):
    sizes = [0.0, 0.5, 1.0 - 1e-6, 1.0 + 1e-6, 3.0]
    total = len(kinds) * npts
    if total > 4 or not ck.quick:
        sizes = [0.0, 0.9, 1.1] if total > 4 else sizes
    dirs = {"p": [(1, 0), (0.6, -0.8), (0, -1)], "s": [(0, 0, 1), (0.6, 0, -0.8), (0, 1, 0), (1 / 3, -2 / 3, 2 / 3)]}
    for combo in itertools.product(range(len(sizes)), repeat=total):
        rec = types.Reconstruction()
        rec.add_camera(mkcam("perspective", "cp"))
        rec.add_camera(mkcam("spherical", "cs"))
        for i, k in enumerate(kinds):
            rec.create_shot("s%d" % i, "c" + k, pose((0, 0, 0), (i, 0, 0)))
        thr = 0.006 if mode != "NONE" else 1.0
        c = cfg(bundle_outlier_filtering_type=mode if mode != "NONE" else "something", bundle_outlier_fixed_threshold=thr, bundle_outlier_auto_ratio=1.5)
        errs = {}
        seen = {}
        for p in range(npts):
            pid = "p%d" % p
            rec.create_point(pid, [0, 0, 5.0])
            errs[pid] = {}
            seen[pid] = set()
            for i, k in enumerate(kinds):
                rec.add_observation("s%d" % i, pid, ob(p))
                d = dirs[k][(i + 2 * p) % len(dirs[k])]
                errs[pid]["s%d" % i] = np.array(d, float) * sizes[combo[p * len(kinds) + i]] * thr
                seen[pid].add("s%d" % i)
            rec.points[pid].reprojection_errors = errs[pid]
        rec.create_point("lonely", [1, 1, 5.0])  # no observation, no error: stays
        if mode == "AUTO":
            flat = [np.concatenate([e, [0]]) if len(e) == 2 else e for d in errs.values() for e in d.values()]
            if all(k == "p" for k in kinds):
                flat = [e[:2] for e in flat]
            med = np.median(np.array(flat), axis=0)
            std = 1.486 * np.median([np.linalg.norm(e - med) for e in flat])
            limit = 1.5 * np.linalg.norm(med + std)
        else:
            limit = thr
        chosen = {"all": None, "list": ["p%d" % p for p in range(npts) if p != 1], "dict": None}[sel]
        if sel == "dict":
            chosen = {p: rec.points[p] for p in ["p%d" % p for p in range(npts)][-1:]}
        names = list(errs) if chosen is None else list(chosen)
        sz = {(p, s): np.linalg.norm(e) for p in names for s, e in errs[p].items()}
        if any(abs(v - limit) <= 1e-9 * (1 + limit) and v != limit for v in sz.values()) or (mode == "AUTO" and any(abs(v - limit) <= 1e-12 for v in sz.values()) and limit > 0):
            continue
        bad = {k for k, v in sz.items() if v > limit}
        want = {}
        for p in errs:
            left = {s for s in seen[p] if (p, s) not in bad}
            if len(left) >= 2 or len(left) == len(seen[p]):
                want[p] = left
        want["lonely"] = set()
        ck.ev()
        ck.outcome((tuple(kinds), mode, combo))
        ck.sample((kinds, mode, combo, sorted(bad)))
        got_n = orec.remove_outliers(rec, c) if chosen is None else orec.remove_outliers(rec, c, chosen)
        what = "errors %r, filter %s with limit %g, selection %s" % ({p: {s: e.tolist() for s, e in d.items()} for p, d in errs.items()}, mode, limit, sel)
        ck.expect(got_n == len(bad), "outlier-count", "%s: %r reported instead of %d" % (what, got_n, len(bad)))
        ck.expect(rows(rec) == want, "outliers", "%s: left %r instead of %r" % (what, rows(rec), want))
        for i in range(len(kinds)):
            got = set(lm.id for lm in rec.shots["s%d" % i].get_valid_landmarks())
            ck.expect(got == {p for p in want if "s%d" % i in want[p]}, "outlier-links", "%s: shot %d still sees %r" % (what, i, got))
    # a reconstruction without errors loses nothing
    rec = types.Reconstruction()
    rec.create_point("a", [0, 0, 1.0])
    ck.expect(orec.remove_outliers(rec, cfg(bundle_outlier_filtering_type=mode)) == 0 and list(rec.points.keys()) == ["a"], "outliers-none", "no errors, %s" % mode)


# ---------------------------------------------------------------- counts, colours and common tracks
def sightings(n_shots, n_tracks, i, parts):
    """all matrices (shot x track), the i-th of `parts` slices"""
    cells = n_shots * n_tracks
    for m in range(i, 2 ** cells, parts):
        yield {(s, t) for s in range(n_shots) for t in range(n_tracks) if m >> (s * n_tracks + t) & 1}


def tm(see, feature=lambda s, t: 10 * s + t, color=lambda s, t: (s, t, 7)):
    m = pymap.TracksManager()
    for s, t in sorted(see):
        m.add_observation("s%d" % s, "t%d" % t, ob(feature(s, t), (0.01 * s, 0.02 * t), color(s, t)))
    return m


def counts_(ck, i):
    for see in sightings(3, 3, i, 8):
        m = tm(see)
        present = {s for s, _ in see}
        ck.outcome(tuple(sorted(see)))
        for recon in ((), (0,), (1, 2), (0, 1, 2)):
            for pts in ((), (0,), (0, 2), (0, 1, 2)):
                rec = types.Reconstruction()
                rec.add_camera(mkcam("perspective"))
                for s in recon:
                    rec.create_shot("s%d" % s, "c")
                for t in pts:
                    rec.create_point("t%d" % t, [0, 0, 1.0])
                ck.ev()
                images = {"s%d" % s for s in present}
                got = orec.reconstructed_points_for_images(m, rec, set(images))
                want = {"s%d" % s: sum((s, t) in see for t in pts) for s in present if s not in recon}
                what = "sightings %r, shots %r, points %r" % (sorted(see), recon, pts)
                ck.expect(dict(got) == want and len(got) == len(want), "candidates", "%s: candidates %r instead of %r" % (what, got, want))
                ck.expect([n for _, n in got] == sorted(want.values(), reverse=True), "candidates-order", "%s: candidates in order %r" % (what, got))
                few = sorted(present)[:2]
                cnt = pysfm.count_tracks_per_shot(m, ["s%d" % s for s in few], ["t%d" % t for t in pts])
                ck.expect(dict(cnt) == {"s%d" % s: sum((s, t) in see for t in pts) for s in few}, "track-counts", "%s: counts %r" % (what, dict(cnt)))
                if all(any((s, t) in see for s in range(3)) for t in pts):
                    orec.paint_reconstruction(None, m, rec)
                    for t in pts:
                        ck.expect(tuple(rec.points["t%d" % t].color) in {(s, t, 7) for s in range(3) if (s, t) in see}, "colour", "%s: point %d has colour %r" % (
                            what, t, rec.points["t%d" % t].color))
        # connections
        for s in present:
            for conns in ((), (0,), (0, 1, 2)):
                m2 = tm(see)
                pysfm.add_connections(m2, "s%d" % s, ["t%d" % t for t in conns])
                now = lambda q: {(a, b) for a in range(3) if "s%d" % a in q.get_shot_ids() for b in range(3) if "t%d" % b in q.get_shot_observations("s%d" % a)}
                ck.expect(now(m2) == see | {(s, t) for t in conns}, "connect", "adding %r to shot %d of %r" % (conns, s, sorted(see)))
                m3 = tm(see)
                drop = [t for t in conns if (s, t) in see]
                pysfm.remove_connections(m3, "s%d" % s, ["t%d" % t for t in drop])
                ck.expect(now(m3) == see - {(s, t) for t in drop}, "disconnect", "removing %r from shot %d of %r" % (drop, s, sorted(see)))
    # tracks shared by two reconstructions: the same features of the same images
    for see in sightings(2, 2, i, 8):
        for see2 in sightings(2, 2, 0, 1):
            for shift in (0, 1):
                f1 = lambda s, t: 10 * s + t
                f2 = lambda s, t: 10 * s + (t + shift) % 2
                m1, m2 = tm(see, f1), tm(see2, f2)
                for recs in itertools.product([(0,), (0, 1), ()], repeat=2):
                    for pts in itertools.product([(0,), (0, 1)], repeat=2):
                        rr = []
                        for k in range(2):
                            r = types.Reconstruction()
                            r.add_camera(mkcam("perspective"))
                            for s in recs[k]:
                                r.create_shot("s%d" % s, "c")
                            for t in pts[k]:
                                r.create_point("t%d" % t, [0, 0, 1.0])
                            rr.append(r)
                        want = {("t%d" % a, "t%d" % b) for s in set(recs[0]) & set(recs[1]) for a in pts[0] for b in pts[1]
                                if (s, a) in see and (s, b) in see2 and f1(s, a) == f2(s, b)}
                        got = orec.compute_common_tracks(rr[0], rr[1], m1, m2)
                        ck.ev()
                        ck.expect(set(got) == want and len(got) == len(want), "common", "tracks %r and %r (features shifted by %d), shots %r, points %r: common %r instead of %r" % (
                            sorted(see), sorted(see2), shift, recs, pts, got, want))


# ---------------------------------------------------------------- when to bundle and to triangulate again
class Data:
    def __init__(self, **kw):
        self.config = cfg(**kw)


def gates_(ck, i):
    depth = 5 if ck.quick else 7
    interval, ratio = [(1, 1.2), (3, 1.2), (100, 2.0), (999999, 1.0)][i]
    for active in (True, False):
        for rr in (1.2, 2.0):
            for hist in itertools.product(("shot", "points", "lose", "done"), repeat=depth):
                rec = types.Reconstruction()
                rec.add_camera(mkcam("perspective"))
                n = [0]

                def grow(k):
                    for _ in range(k):
                        rec.create_point("p%d" % n[0], [0, 0, 1.0])
                        n[0] += 1
                grow(3)
                rec.create_shot("s", "c")
                d = Data(bundle_interval=interval, bundle_new_points_ratio=ratio, retriangulation=active, retriangulation_ratio=rr)
                a, b = orec.ShouldBundle(d, rec), orec.ShouldRetriangulate(d, rec)
                pts, shots = 3, 1
                lp, ls = 3, 1
                for k, h in enumerate(hist):
                    if h == "shot":
                        rec.create_shot("x%d" % k, "c")
                        shots += 1
                    elif h == "points":
                        grow(2)
                        pts += 2
                    elif h == "lose":
                        if pts:
                            rec.remove_point(list(rec.points.keys())[0])
                            pts -= 1
                    else:
                        a.done()
                        b.done()
                        lp, ls = pts, shots
                    ck.ev()
                    ck.transition()
                    ck.expect(bool(a.should()) == (pts >= lp * ratio or shots >= ls + interval), "bundle-gate", "after %r (interval %d, ratio %g): %r" % (hist[:k + 1], interval, ratio, a.should()))
                    ck.expect(bool(b.should()) == (active and pts > lp * rr), "triangulate-gate", "after %r (active %r, ratio %g): %r" % (hist[:k + 1], active, rr, b.should()))
                ck.outcome(hist)


# ---------------------------------------------------------------- badly conditioned points
def jac(cam, R, t, X):
    J = np.zeros((2, 3))
    h = 1e-6 * max(1.0, np.linalg.norm(R @ X + t))
    for k in range(3):
        d = np.zeros(3)
        d[k] = h
        J[:, k] = (cam.project(R @ (X + d) + t) - cam.project(R @ (X - d) + t)) / (2 * h)
    return J


def angle(u, v):
    return math.atan2(np.linalg.norm(np.cross(u, v)), float(np.dot(u, v)))


def judge(views, X, min_angle):
    """(keep by angle, condition number) of a point seen by views (camera, R, c); None when undecided"""
    A = max([angle(X - c1, X - c2) for (_, _, c1), (_, _, c2) in itertools.combinations(views, 2)], default=-1.0)
    if abs(A - min_angle) < 1e-9:
        return None
    if A < min_angle:
        return "drop"
    M = sum(jac(cam, R, -R @ c, X).T @ jac(cam, R, -R @ c, X) for cam, R, c in views)
    e = np.linalg.eigvalsh(M)
    if np.prod(e) < 1e-13:
        return None
    return min(math.sqrt(e[2] / e[0]), 1000.0)


def build(views, pts, sees, kinds):
    rec = types.Reconstruction()
    cams = {}
    for k in sorted(set(kinds)):
        cams[k] = mkcam(k, "c" + k)
        rec.add_camera(cams[k])
    out = []
    for i, (aa, c) in enumerate(views):
        k = kinds[i % len(kinds)]
        rec.create_shot("s%d" % i, "c" + k, pose(aa, c))
        out.append((cams[k], rod(aa), np.array(c, float)))
    for j, x in enumerate(pts):
        rec.create_point("p%d" % j, np.array(x, float))
        for i in sees(j):
            cam, R, c = out[i]
            xy = cam.project(R @ (np.array(x, float) - c))
            rec.add_observation("s%d" % i, "p%d" % j, ob(j, xy))
    return rec, out


def condition_of(ck, rec, views, pts, sees, deg, what):
    v = [judge([views[i] for i in sees(j)], np.array(x, float), math.radians(deg)) for j, x in enumerate(pts)]
    if any(x is None for x in v):
        return False
    conds = [x for x in v if x != "drop"]
    want = {"p%d" % j for j, x in enumerate(v) if x != "drop"}
    if conds:
        thr = np.mean(conds) + np.std(conds)
        if any(abs(x - thr) < 1e-5 * thr and len(set(np.round(conds, 6))) > 1 for x in conds):
            return False
        if np.std(conds) > 1e-5:
            want = {"p%d" % j for j, x in enumerate(v) if x != "drop" and x <= thr}
        elif len(conds) > 1:
            return False
        else:
            thr = conds[0]
    n = len(pts)
    got = pysfm.filter_badly_conditioned_points(rec.map, deg)
    left = set(rec.points.keys())
    ck.ev()
    ck.expect(left == want and got == n - len(want), "conditioned", "%s: with minimum angle %g %r (%r removed) stay instead of %r; conditions %r" % (what, deg, sorted(left), got, sorted(want), v))
    return True


def angles_(ck, kind, n):
    """single points: the ray angle alone decides"""
    for cs in itertools.combinations([(0, 0, 0), (1, 0, 0), (0, 0.5, 0), (0.05, 0, 0), (0, 0, -2), (2, 1, 0.5)], n):
        for X in [(0, 0.1, 5), (0.3, 0.2, 8), (1, -1, 20), (0.2, 0.3, 100), (-2, 1, 3)]:
            views = [((0.02 * i, -0.03, 0.1 * i), c) for i, c in enumerate(cs)]
            for deg in (0.1, 1.0, 3.0, 10.0, 40.0):
                rec, vv = build(views, [X], lambda j: range(n), [kind])
                ok = condition_of(ck, rec, vv, [X], lambda j: range(n), deg, "%s cameras at %r, point %r" % (kind, cs, X))
                ck.outcome((cs, X, deg)) if ok else None


def condition_(ck, kind, n):
    kinds = ["perspective", "spherical", "fisheye"] if kind == "mixed" else [kind]
    rng = np.random.RandomState(10 * n + len(kind))
    views = [((0.05 * i - 0.1, 0.04 * i, 0.3 * i), (0.7 * i, 0.3 * (i % 2), -0.2 * i)) for i in range(4)]
    for k in range(30):
        pts = [tuple(np.array([0.5, 0.2, 6]) + rng.uniform(-1, 1, 3) * [2, 2, 3]) for _ in range(2 + (k + n) % 7)]
        for where in (None, (0, 0, 1e4), (0.1, 0.1, 40)):  # a far one is not seen under an angle
            q = pts + ([where] if where else [])
            masks = [[i for i in range(4) if (k * 7 + j * 5 + n) % 11 != i and (i + j) % 3 != 1 or i < 1 + j % 3] for j in range(len(q))]
            rec, vv = build(views, q, lambda j: masks[j], kinds)
            ok = condition_of(ck, rec, vv, q, lambda j: masks[j], [1.0, 2.0, 5.0][k % 3], "%s cameras, points %r" % (kind, q))
            ck.outcome((n, k, where)) if ok else None


# ---------------------------------------------------------------- isolated points
def isolated_(ck, i):
    k = [7, 1, 2, 3][i % 4]
    rng = np.random.RandomState(i)
    for m in (0, 1, k, k + 1, k + 2, 9, 20):
        for spread in ("grid", "random", "far", "twins"):
            if spread == "grid":
                pts = [(a, 1.5 * b, 2.2 * c) for a in range(3) for b in range(3) for c in range(3)][:m]
            else:
                pts = [tuple(rng.uniform(-1, 1, 3) * [3, 2, 1]) for _ in range(m)]
            if spread == "far" and m > 2:
                pts[m // 2] = (30.0, -20.0, 5.0)
                pts[0] = (9.0, 9.0, 0.0)
            if spread == "twins" and m > 3:
                pts[1] = pts[0]
                pts[m - 1] = (25.0, 0, 0)
                pts[m - 2] = (25.0, 0, 0)
            P = np.array(pts, float).reshape(-1, 3).astype(np.float32).astype(float)
            want = {"p%d" % j for j in range(m)}
            if m > k:
                D = ((P[:, None] - P[None]) ** 2).sum(-1)
                avg = np.sort(D, axis=1)[:, 1:k + 1].mean(1)
                thr = avg.mean() + 1.25 * avg.std()
                if np.any(np.abs(avg - thr) < 1e-5 * (1 + thr)):
                    continue
                want = {"p%d" % j for j in range(m) if avg[j] <= thr}
            rec = types.Reconstruction()
            for j, p in enumerate(pts):
                rec.create_point("p%d" % j, np.array(p, float))
            got = pysfm.remove_isolated_points(rec.map, k) if k != 7 else pysfm.remove_isolated_points(rec.map)
            ck.ev()
            ck.outcome((i, m, spread))
            ck.expect(set(rec.points.keys()) == want and got == m - len(want), "isolated", "%d neighbours, points %r: %r removed, left %r instead of %r" % (
                k, pts, got, sorted(rec.points.keys()), sorted(want)))


# ---------------------------------------------------------------- carrying one reconstruction over to another
def realign_(ck, i):
    rigs = i % 2 == 1
    update = i % 4 < 2
    offset = [(0.0, 0.0, 0.0), (0.001, -0.002, 15.0)][(i // 4) % 2]
    scaled = i // 8
    centers = [(0, 0, 0), (4, 1, 0.5), (8, -1, 1), (12, 0.5, 0)]
    pts = [(1, 1, 9), (5, -2, 12), (9, 1, 7), (3, 3, 20), (11, 0, 8)]
    for mask in range(16):  # shots (instances) of the first map
        for seen, lost in itertools.product((lambda s, p: True, lambda s, p: (s + p) % 2 == 0, lambda s, p: s == 3 - p % 4), (0, 1, 2, 3) if rigs else (0,)):
            maps = []
            refs = [geo.TopocentricConverter(47.0, 8.5, 300.0), geo.TopocentricConverter(47.0 + offset[0], 8.5 + offset[1], 300.0 + offset[2])]
            for which in range(2):
                rec = types.Reconstruction()
                rec.reference = refs[which]
                cam = mkcam("perspective")
                if which == 0:
                    cam.focal = 0.77
                rec.add_camera(cam)
                if rigs:
                    rec.add_rig_camera(pymap.RigCamera(pose((0, 0, 0), (0, 0, 0)), "r0"))
                    rec.add_rig_camera(pymap.RigCamera(pose((0.1, 0.2, -0.1), (0.3, 0, 0.1)), "r1"))
                for s, c in enumerate(centers):
                    if which == 0 and not mask >> s & 1:
                        continue
                    p = pose((0.1 * s, -0.2, 0.05), c) if which else pose((0.1 * s + 0.3, 0.1, -0.4 + 0.1 * s), (1.5 * c[0] + 2, c[1] - 3, c[2] + 1 + s))
                    if rigs:
                        rec.add_rig_instance(pymap.RigInstance("i%d" % s))
                        for r in range(2):      # the first map may have only some of the shots of an instance
                            if which or not lost or s % 3 == 2 or (s + lost) % 2 == r or lost == 3 and s == 1:
                                rec.create_shot("s%d_%d" % (s, r), "c", rig_camera_id="r%d" % r, rig_instance_id="i%d" % s)
                        rec.rig_instances["i%d" % s].pose = p
                    else:
                        rec.create_shot("s%d" % s, "c", p)
                names = lambda s: ["s%d_%d" % (s, r) for r in range(2)] if rigs else ["s%d" % s]
                for s in range(4):
                    for n in names(s):
                        if n in rec.shots and which == 0:
                            rec.shots[n].scale = (0.5 + s) if scaled else 0.0
                            rec.shots[n].merge_cc = s + 5
                if which:
                    for q, x in enumerate(pts):
                        rec.create_point("p%d" % q, np.array(x, float))
                        for s in range(4):
                            for n in names(s):
                                if seen(s, q):
                                    rec.add_observation(n, "p%d" % q, ob(q))
                maps.append(rec)
            A, B = maps
            off = np.array(refs[1].to_topocentric(refs[0].lat, refs[0].lon, refs[0].alt))
            before = {n: (sh.pose.get_rotation_matrix(), sh.pose.get_origin()) for n, sh in B.shots.items()}
            fromp = {n: (sh.pose.get_rotation_matrix(), sh.pose.get_origin() + off) for n, sh in A.shots.items()}
            want = {}
            tie = False
            for q, x in enumerate(pts):
                x = np.array(x, float)
                obs = sorted((np.linalg.norm(x - before[n][1]), n) for s in range(4) for n in names(s) if seen(s, q) and n in fromp)
                if not obs or not update:
                    want["p%d" % q] = x
                    continue
                tie |= len(obs) > 1 and obs[1][0] - obs[0][0] < 1e-9
                n = obs[0][1]
                sc = A.shots[n].scale
                y = before[n][0] @ (x - before[n][1])
                want["p%d" % q] = fromp[n][1] + (1 / sc if sc else 1.0) * fromp[n][0].T @ y
            if tie:
                continue
            pysfm.realign_maps(A.map, B.map, update)
            what = "shots %s of 4%s, %s, scales %s" % (bin(mask), " rigs%s" % ["", ", some without their first or second shot"][lost > 0] if rigs else "", "other reference" if any(offset) else "same reference", scaled)
            ck.ev()
            ck.outcome((i, mask, seen(1, 0), seen(0, 3), lost))
            ck.expect(set(B.shots.keys()) == set(fromp), "realign-shots", "%s: shots %r" % (what, sorted(B.shots.keys())))
            for n, (R, c) in fromp.items():
                if n in B.shots:
                    sh = B.shots[n]
                    ck.expect(np.allclose(sh.pose.get_rotation_matrix(), R, atol=1e-9) and np.allclose(sh.pose.get_origin(), c, atol=1e-6), "realign-pose", "%s: shot %s is at %r instead of %r" % (
                        what, n, sh.pose.get_origin(), c))
                    ck.expect(sh.scale == A.shots[n].scale and sh.merge_cc == A.shots[n].merge_cc, "realign-meta", "%s: shot %s has scale %r and component %r" % (what, n, sh.scale, sh.merge_cc))
                    ck.expect(set(lm.id for lm in sh.get_valid_landmarks()) == {"p%d" % q for q in range(len(pts)) if seen(int(n[1]), q)}, "realign-links", "%s: shot %s" % (what, n))
            for q, x in want.items():
                ck.expect(np.allclose(B.points[q].coordinates, x, atol=1e-6), "realign-points", "%s: point %s is at %r instead of %r" % (what, q, B.points[q].coordinates, x))
            if fromp:
                ck.expect(abs(B.cameras["c"].focal - 0.77) < 1e-12, "realign-camera", "%s: focal %r" % (what, B.cameras["c"].focal))


# ---------------------------------------------------------------- aligning two reconstructions by their common tracks
def align_(ck, i):
    sims = [(1.0, (0, 0, 0), (0, 0, 0)), (2.0, (0.3, -0.2, 0.5), (10, -20, 5)), (0.3, (0, 3.0, 0), (-3, 4, 1)), (5.0, (2.0, 1.0, -1.0), (50, 60, 70))]
    s, aa, b = sims[i % 4]
    A, b = rod(aa), np.array(b, float)
    rng = np.random.RandomState(5)
    P = rng.uniform(-1, 1, (12, 3)) * [5, 5, 2]
    for n in (5, 6, 7, 8, 12):
        wrongs = [()] + [(w,) for w in range(n)] + ([(0, n - 1), (1, 2)] if n >= 8 else [])
        for wrong in wrongs if i < 4 or ck.quick is False else wrongs[:3]:
            np.random.seed(1)
            recs, tms = [], []
            for which in range(2):
                r = types.Reconstruction()
                r.add_camera(mkcam("perspective"))
                r.create_shot("s0", "c")
                t = pymap.TracksManager()
                for k in range(n):
                    x = P[k] if which == 0 else s * A @ P[k] + b + (np.array([7.0, -9.0, 11.0]) * s if k in wrong else 0)
                    name = "%s%d" % ("ab"[which], (k * (1 + 2 * which)) % 31)
                    r.create_point(name, x)
                    t.add_observation("s0", name, ob(k))
                recs.append(r)
                tms.append(t)
            ok, T, inl = orec.resect_reconstruction(recs[0], recs[1], tms[0], tms[1], 1e-3 * s, 5)
            ck.ev()
            ck.outcome((i, n, wrong))
            what = "%d common tracks, wrong ones %r, similarity %r" % (n, wrong, sims[i % 4])
            ck.expect(bool(ok) == (n >= 7), "merge", "%s: %r" % (what, ok))
            if ok:
                M = np.eye(4)
                M[:3, :3], M[:3, 3] = s * A, b
                good = {("a%d" % k, "b%d" % (3 * k % 31)) for k in range(n) if k not in wrong}
                ck.expect(np.allclose(T, M, atol=1e-6 * (1 + np.abs(M).max())), "merge-transform", "%s: transform\n%r instead of\n%r" % (what, T, M))
                ck.expect(set(inl) == good and len(inl) == len(good), "merge-inliers", "%s: inliers %r" % (what, inl))


# ---------------------------------------------------------------- neighbourhood of a shot (python version)
def neighbors_(ck, i):
    edges = list(itertools.combinations(range(4), 2))
    w = [0, 1, 3]
    for combo in itertools.islice(itertools.product(range(3), repeat=6), i, None, 8):
        rec = types.Reconstruction()
        rec.add_camera(mkcam("perspective"))
        for s in range(4):
            rec.create_shot("s%d" % s, "c")
        n = 0
        W = np.zeros((4, 4), int)
        for (a, b), k in zip(edges, combo):
            for _ in range(w[k]):
                rec.create_point("p%d" % n, [0, 0, 1.0])
                rec.add_observation("s%d" % a, "p%d" % n, ob(n))
                rec.add_observation("s%d" % b, "p%d" % n, ob(n))
                n += 1
            W[a, b] = W[b, a] = w[k]
        for radius, minc, size in itertools.product((1, 2, 3), (1, 2), (1, 2, 3, 100)):
            got_i, got_b = orec.shot_neighborhood(rec, "s0", radius, minc, size)
            interior = {0}
            unsure = False
            for _ in range(1, radius):
                room = size - len(interior)
                if room <= 0:
                    break
                share = {s: int(sum(W[s, t] for t in interior)) for s in range(4) if s not in interior}
                ranked = sorted(((c, s) for s, c in share.items() if c >= minc), reverse=True)
                if len(ranked) > room and ranked[room][0] == ranked[room - 1][0]:
                    unsure = True
                    break
                interior |= {s for _, s in ranked[:room]}
            ck.ev()
            if unsure:
                continue
            border = {s for s in range(4) if s not in interior and any(W[s, t] for t in interior)}
            what = "common points %r, radius %d, at least %d, at most %d" % (W.tolist(), radius, minc, size)
            ck.expect(got_i == {"s%d" % s for s in interior}, "interior", "%s: %r instead of %r" % (what, got_i, interior))
            ck.expect(got_b == {"s%d" % s for s in border}, "boundary", "%s: %r instead of %r" % (what, got_b, border))
        ck.outcome(combo)


def compass_(ck, i):
    for ref in (geo.TopocentricConverter(47.0, 8.5, 300.0), geo.TopocentricConverter(-33.0, 151.0, 10.0)):
        for k in range(24):
            h = math.radians(15 * k + 0.3)
            for pitch, roll in ((0, 0), (0.5, 0.2), (-0.8, -1.0), (1.2, 3.0)):
                f = np.array([math.sin(h) * math.cos(pitch), math.cos(h) * math.cos(pitch), -math.sin(pitch)])
                r = np.array([math.cos(h), -math.sin(h), 0])
                d = np.cross(f, r)
                R = rod((0, 0, roll)) @ np.array([r, d, f])
                c = np.array([10 * i, -20.0 + k, 5 * i])
                rec = types.Reconstruction()
                rec.add_camera(mkcam("perspective"))
                p = pygeometry.Pose()
                p.set_rotation_matrix(R)
                p.set_origin(c)
                sh = rec.create_shot("s", "c", p)
                lat, lon, alt, ang = orec.shot_lla_and_compass(sh, ref)
                ck.ev()
                ck.outcome((i, k, pitch))
                ck.expect(np.allclose(ref.to_topocentric(lat, lon, alt), c, atol=1e-4), "lla", "camera at %r is at %r" % (c, (lat, lon, alt)))
                ck.expect(abs((ang - (15 * k + 0.3) + 180) % 360 - 180) < 1e-6 and 0 <= ang < 360, "compass", "heading %g, pitch %g, roll %g: compass %r" % (15 * k + 0.3, pitch, roll, ang))


def prior_(ck, i):
    """points made again from a reconstruction's cameras, poses, rigs and reference"""
    kind = ["single", "rig", "singlerig"][i % 3]
    centers = [(0, 0, 0), (2, 0.3, 0.1), (4, -0.2, 0.2), (6, 0.1, 0.0)]
    rng = np.random.RandomState(3)
    pts = [np.array([1 + rng.uniform(-2, 5), rng.uniform(-2, 2), rng.uniform(6, 12)]) for _ in range(10)]
    for mask in range(16):
        prior = types.Reconstruction()
        prior.reference = REF
        cam = mkcam("perspective")
        prior.add_camera(cam)
        rcs = {"single": [], "rig": [((0, 0, 0), (0, 0, 0)), ((0.05, -0.1, 0.1), (0.5, 0.1, 0))], "singlerig": [((0.1, 0.1, 0), (0.2, 0, 0))]}[kind]
        for k, (a, c) in enumerate(rcs):
            prior.add_rig_camera(pymap.RigCamera(pose(a, c), "r%d" % k))
        tmgr = pymap.TracksManager()
        everything = {}
        for s, c in enumerate(centers):
            P = pose((0.02 * s, -0.03 * s, 0.1 * s), c)
            if rcs:
                if mask >> s & 1:
                    prior.add_rig_instance(pymap.RigInstance("i%d" % s))
                for k, (a, t) in enumerate(rcs):
                    everything["s%d_%d" % (s, k)] = pose(a, t).compose(P)
                    if mask >> s & 1:
                        prior.create_shot("s%d_%d" % (s, k), "c", rig_camera_id="r%d" % k, rig_instance_id="i%d" % s)
                if mask >> s & 1:
                    prior.rig_instances["i%d" % s].pose = P
            else:
                everything["s%d" % s] = P
                if mask >> s & 1:
                    prior.create_shot("s%d" % s, "c", P)
        for n, P in everything.items():
            for q, x in enumerate(pts):
                if (q + len(n) + ord(n[1])) % 4 == 0:
                    continue
                y = P.transform(x)
                tmgr.add_observation(n, "p%d" % q, ob(q, cam.project(y), (q, 2, 3)))
        prior.create_point("old", [0, 0, 1.0])
        d = Data()
        what = "%s prior of instances %s" % (kind, bin(mask))
        report, rec = orec.reconstruct_from_prior(d, tmgr, prior)
        ck.ev()
        ck.outcome((i, mask))
        ck.expect(set(rec.shots.keys()) == set(prior.shots.keys()), "prior-shots", "%s: shots %r" % (what, sorted(rec.shots.keys())))
        ck.expect(not mask or set(rec.rig_cameras.keys()) == set(prior.rig_cameras.keys()), "prior-rigs", "%s: rig cameras %r" % (what, sorted(rec.rig_cameras.keys())))
        for n, sh in prior.shots.items():
            ck.expect(n in rec.shots and np.allclose(rec.shots[n].pose.get_cam_to_world(), sh.pose.get_cam_to_world(), atol=1e-12) and rec.shots[n].camera.id == "c", "prior-pose", "%s: shot %s moved" % (what, n))
        ck.expect(set(report["not_reconstructed_images"]) == set(everything) - set(prior.shots.keys()), "prior-report", "%s: %r" % (what, report))
        ck.expect(rec.reference.lat == 47.0 and rec.reference.alt == 300.0, "prior-reference", what)
        want = {}
        for q, x in enumerate(pts):
            see = {n for n in prior.shots.keys() if (q + len(n) + ord(n[1])) % 4}
            A = max([angle(x - prior.shots[a].pose.get_origin(), x - prior.shots[b].pose.get_origin()) for a, b in itertools.combinations(sorted(see), 2)], default=0)
            if A > math.radians(1):
                want["p%d" % q] = see
        ck.expect(rows(rec) == want, "prior-points", "%s: points %r instead of %r" % (what, rows(rec), want))
        for q in rec.points.keys():
            x = pts[int(q[1:])] if q != "old" else None
            ck.expect(x is not None and np.allclose(rec.points[q].coordinates, x, atol=1e-6), "prior-place", "%s: point %s is at %r instead of %r" % (what, q, rec.points[q].coordinates, x))
            ck.expect(x is not None and tuple(rec.points[q].color) == (int(q[1:]), 2, 3), "prior-colour", "%s: point %s has colour %r" % (what, q, rec.points[q].color))
