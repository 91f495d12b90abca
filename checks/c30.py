"""C30: dense depth maps: neighbours, depth ranges, matching scores, consistency, pruning, masks, files."""
import itertools
import math
import os
import shutil

import cv2
import numpy as np
from opensfm import dataset, dense, pydense, pygeometry, pymap, types

from bascene import look, pose
from scene import rod

LEVEL = "exploration"
RULE = ("neighbours: all sequences of up to three other images from eleven classes of angle and counts x limits; depth ranges; brute force matching "
        "of whole images against the written-out correlation over all planes and views; patch matching: every pixel's plane, view, score and "
        "depth explained by the same formula; cleaning and pruning: all assignments of depth patterns to up to three other views x thresholds; "
        "the command on datasets on disk: methods x masks x segmentations x sizes x images missing; non-trivial: distinct inputs and maps")
ASSUMPTIONS = ["pixels whose decision lies within rounding of its threshold may go either way",
               "patch matching is random: what is claimed is what holds for every outcome",
               "masks are claimed for the patch matching methods"]


# ---------------------------------------------------------------- scene

def texture(X, k=0):
    x, y, z = X[..., 0], X[..., 1], X[..., 2]
    v = (np.sin(7.3 * x + 1.1 * y + k) + np.sin(2.9 * x - 8.1 * y + 0.7 * z) + np.sin(15.1 * x + 6.4 * z + 1) * np.cos(13.7 * y) + np.sin(4.1 * (x + y) + 2)) / 4
    return 127 + 120 * v


class View:
    def __init__(self, f, w, h, R, C):
        self.f, self.w, self.h = f, w, h
        m = max(w, h)
        self.K = np.array([[f * m, 0, 0.5 * w], [0, f * m, 0.5 * h], [0, 0, 1.0]])
        self.R, self.C = np.array(R, float), np.array(C, float)
        self.t = -self.R @ self.C

    def rays(self, dx=0, dy=0):
        y, x = np.mgrid[0:self.h, 0:self.w].astype(float)
        return np.dstack((x + dx, y + dy, np.ones_like(x))) @ np.linalg.inv(self.K).T

    def depth(self, n, d):
        """depth of the plane n.X = d at each pixel, and its plane as the estimator writes it"""
        r = self.rays()
        nc = self.R @ np.array(n, float)                # n.(R^T (x - t)) = d
        dc = d + nc @ self.t
        z = dc / (r @ nc)
        return z, -nc / dc

    def image(self, n, d, k=0, colour=False):
        z, _ = self.depth(n, d)
        X = (self.rays() * z[..., None] - self.t) @ self.R
        g = [texture(X, k + 0.4 * c) for c in range(3 if colour else 1)]
        return np.clip(np.dstack(g) if colour else g[0], 0, 255).astype(np.uint8)


def setup_views(name, w=26, h=20):
    """view 0 and others around it"""
    base = {"flat": [((0, 0, 0), (0, 0, 0)), ((0, 0, 0), (0.5, 0, 0)), ((0, 0, 0), (-0.4, 0.3, 0)), ((0, 0, 0), (0.1, -0.5, 0.2))],
            "turned": [((0.1, -0.2, 0.3), (0.2, 0.1, -0.3)), ((0.02, -0.1, 0.2), (0.8, 0.3, -0.2)), ((0.2, -0.3, 0.9), (-0.3, 0.5, -0.4)), ((0.1, -0.2, -1.2), (0.3, -0.5, 0.3))],
            "mixed": [((0, 0, 0), (0, 0, 0)), ((0, -0.08, 0), (0.6, 0.1, 0)), ((0.05, 0, 1.5), (-0.5, 0.2, 0.1)), ((0, 3.1, 0), (0.2, 0, 0))]}[name]
    dims = [(w, h), (w, h), (h, w), (w - 5, h + 3)] if name != "flat" else [(w, h)] * 4
    fs = [0.9, 0.9, 0.9, 0.9] if name == "flat" else [0.9, 1.0, 0.8, 1.1]
    return [View(f, s[0], s[1], rod(r), c) for f, s, (r, c) in zip(fs, dims, base)]


PLANES = {"front": ((0, 0, 1), 4.0), "slanted": ((0.2, -0.15, 1), 4.2), "steep": ((-0.5, 0.2, 1), 4.5)}


# ---------------------------------------------------------------- the correlation, written out

def ncc(im0, im1, a, b, planes, hp):
    """score of each pixel of view a with its own plane in view b, and where rounding could decide:
    the library computes in single precision, so the homography is also tried with entries moved by
    a few units in the last place"""
    Q = b.R @ a.R.T
    av = Q @ a.t - b.t
    Ki = np.linalg.inv(a.K)
    H = np.einsum("ij,hwjk,kl->hwil", b.K, Q + np.einsum("i,hwj->hwij", av, planes.astype(float)), Ki)
    sc, vague = ncc_of(im0, im1, H, hp)
    for k in range(9):
        G = H.copy()
        G[..., k // 3, k % 3] *= 1 + 5e-7 * (1 if k % 2 else -1)
        o, vg = ncc_of(im0, im1, G, hp)
        vague |= vg | (np.abs(o - sc) > 5e-4)
    return sc, vague


def ncc_of(im0, im1, H, hp):
    h, w = im0.shape
    y, x = np.mgrid[0:h, 0:w].astype(float)
    X = np.dstack((x, y, np.ones_like(x)))
    u, v, s = np.moveaxis(np.einsum("hwij,hwj->hwi", H, X), 2, 0)
    vague = np.abs(s) < 1e-3
    s = np.where(s == 0, 1e-9, s)
    Jxx, Jxy = (H[..., 0, 0] * s - H[..., 2, 0] * u) / s ** 2, (H[..., 0, 1] * s - H[..., 2, 1] * u) / s ** 2
    Jyx, Jyy = (H[..., 1, 0] * s - H[..., 2, 0] * v) / s ** 2, (H[..., 1, 1] * s - H[..., 2, 1] * v) / s ** 2
    x0, y0 = u / s, v / s
    S = [np.zeros((h, w)) for _ in range(6)]
    g0 = im0.astype(float)
    h1, w1 = im1.shape
    I1 = im1.astype(float)
    for dy in range(-hp, hp + 1):
        for dx in range(-hp, hp + 1):
            p = np.roll(g0, (-dy, -dx), (0, 1))
            xx, yy = x0 + Jxx * dx + Jxy * dy, y0 + Jyx * dx + Jyy * dy
            for q, m in ((xx, w1 - 1), (yy, h1 - 1)):
                vague |= (np.abs(q) < 2e-3) | (np.abs(q - m) < 2e-3)
            ok = (xx >= 0) & (xx < w1 - 1) & (yy >= 0) & (yy < h1 - 1)
            ix, iy = np.where(ok, xx, 0).astype(int), np.where(ok, yy, 0).astype(int)
            fx, fy = np.where(ok, xx, 0) - ix, np.where(ok, yy, 0) - iy
            q = (1 - fy) * ((1 - fx) * I1[iy, ix] + fx * I1[iy, ix + 1]) + fy * ((1 - fx) * I1[iy + 1, ix] + fx * I1[iy + 1, ix + 1])
            q = np.where(ok, q, 0.0)
            wgt = np.exp(-(p - g0) ** 2 / (2 * 50.0 ** 2) - (dx * dx + dy * dy) / (2 * 5.0 ** 2))
            for k, val in enumerate((wgt, wgt * p, wgt * q, wgt * p * p, wgt * q * q, wgt * p * q)):
                S[k] += val
    m = [q / S[0] for q in S[1:]]
    vx, vy = m[2] - m[0] ** 2, m[3] - m[1] ** 2
    vague |= (np.abs(vx - 0.1) < 0.1 + 1e-3 * vx) | ((vx > 0.2) & (vx < 20)) | (np.abs(vy - 0.1) < 0.05) & (vy != 0) | ((vy > 0.15) & (vy < 20)) | ((m[1] > 1e-9) & (vy < 20))
    vague &= ~(vx == 0)
    with np.errstate(all="ignore"):
        sc = np.where((vx < 0.1) | (vy < 0.1), -1.0, (m[4] - m[0] * m[1]) / np.sqrt(np.maximum(vx * vy, 1e-9)))
    return sc, vague


def estimator(views, images, masks, lo, hi, n, patch, sd=0.0, iters=3):
    de = pydense.DepthmapEstimator()
    de.set_depth_range(lo, hi, n)
    de.set_patchmatch_iterations(iters)
    de.set_patch_size(patch)
    de.set_min_patch_sd(sd)
    for v, im, m in zip(views, images, masks):
        de.add_view(v.K, v.R, v.t, im, m)
    return de


# ---------------------------------------------------------------- cases

ANG = {"small": math.pi / 60 * 0.9, "low": math.pi / 60 * 1.05, "mid": 0.2, "mid2": 0.35, "high": math.pi / 6 * 0.97, "large": math.pi / 6 * 1.1}
# (angle, tracks with points in common, tracks without points, in the reconstruction)
OTHERS = [("mid", 60, 0, 1), ("mid2", 55, 0, 1), ("low", 70, 0, 1), ("high", 51, 0, 1), ("small", 80, 0, 1), ("large", 80, 0, 1),
          ("mid", 20, 40, 1), ("mid", 21, 40, 1), ("mid", 49, 0, 1), ("mid", 90, 0, 0), ("mid", 60, 5, 1), ("mid", 50, 0, 1)]
RANGES = [(0, 0), (0.5, 0), (0, 9.0), (1.5, 6.0)]
PATTERNS = ["exact", "zero", "above", "below", "near", "far", "mixed", "hole"]


def cases(ck):
    out = []
    n = 2 if ck.quick else 3
    for k in range(0, n + 1):
        for seq in itertools.combinations_with_replacement(range(len(OTHERS)), k):
            out.append(["neighbors", list(seq)])
    out += [["range", i, n] for i in range(len(RANGES)) for n in (1, 2, 7, 30)]
    for s in ("flat", "turned", "mixed"):
        for p in PLANES:
            for patch in (3, 5, 7):
                for planes in ((1, 6) if ck.quick else (1, 2, 3, 6, 11)):
                    for nv in (1, 2, 3):
                        if ck.quick and (patch == 5 or nv == 2) and s != "turned":
                            continue
                        out.append(["brute", s, p, patch, planes, nv])
            for sample in (0, 1):
                for nv in (1, 2, 3):
                    for sd in (0.0, 10.0):
                        for mask in (0, 1):
                            if ck.quick and (p == "steep" or nv == 2 and mask):
                                continue
                            out.append(["patch", s, p, sample, nv, sd, mask])
    for s in ("flat", "turned", "mixed"):
        for p in PLANES:
            for nv in (0, 1, 2, 3):
                for pats in itertools.combinations_with_replacement(range(len(PATTERNS)), nv):
                    if ck.quick and nv == 3 and (p != "slanted" or len(set(pats)) < 3):
                        continue
                    out.append(["clean", s, p, list(pats)])
                    out.append(["prune", s, p, list(pats)])
    out += [["disk", i] for i in range(len(DISK) if not ck.quick else 13)]
    out += [["merge", k] for k in range(4)]
    out += [["ply", k] for k in range(9)]
    return out



def check(ck, c):
    {"neighbors": neighbors, "range": depth_range, "brute": brute, "patch": patch, "clean": clean, "prune": prune, "disk": disk, "merge": merge, "ply": ply}[c[0]](ck, *c[1:])


# ---------------------------------------------------------------- neighbours and range

def neighbors(ck, seq):
    rec = types.Reconstruction()
    cam = pygeometry.Camera.create_perspective(0.9, 0, 0)
    cam.id, cam.width, cam.height = "c", 100, 80
    rec.add_camera(cam)
    rec.create_shot("s", "c", pose(np.eye(3), (0, 0, 0)))
    tm = pymap.TracksManager()
    target = np.array([0, 0, 10.0])
    nt = 0
    want = {}
    common = {}
    tid = 0
    for k, o in enumerate(seq):
        ang, pts, nopts, inside = OTHERS[o]
        name = "o%d" % (9 - k)
        common[name] = []
        if inside:
            th = ANG[ang]
            rec.create_shot(name, "c", pose(np.eye(3), target + 10 * np.array([math.sin(th) * math.cos(k), math.sin(th) * math.sin(k), -math.cos(th)])))
        for j in range(pts + nopts):
            t = "t%d" % tid
            tid += 1
            common[name].append(t)
            for im in ("s", name):
                tm.add_observation(im, t, pymap.Observation(0.1, 0.1, 0.004, 1, 2, 3, j))
            if j < pts:
                rec.create_point(t, target + 1e-3 * np.array([math.sin(j), math.cos(j), 0]))
        total = pts + nopts
        if inside and total >= 50 and pts > 20 and ang not in ("small", "large"):
            want[name] = pts
    # a track that the shot sees alone, and one of two others
    tm.add_observation("s", "alone", pymap.Observation(0.1, 0.1, 0.004, 1, 2, 3, 1000))
    dd = dense.common_tracks_double_dict(tm)
    ck.expect(set(dd) == {"s"} | set(common), "double-dict", "%r: %r" % (seq, sorted(dd)))
    for name, ts in common.items():
        a, b = dd["s"].get(name), dd[name].get("s")
        w = sorted(ts) if len(ts) >= 50 else None
        ck.expect((sorted(a) if a is not None else None) == w and (sorted(b) if b is not None else None) == w, "double-dict-tracks", "%r: %s" % (seq, name))
    for m in (0, 1, 2, 5):
        got = [q.id for q in dense.find_neighboring_images(rec.shots["s"], dd, rec, m)]
        ck.ev()
        ck.expect(got[0] == "s", "self-first", "%r: %r" % (seq, got))
        rest = got[1:]
        ck.expect(len(set(rest)) == len(rest) and set(rest) <= set(want) and len(rest) == min(m, len(want)), "neighbors", "%r limit %d: %r instead of %d of %r" % (seq, m, got, m, want))
        sc = [want[q] for q in rest]
        ck.expect(sc == sorted(want.values(), reverse=True)[:m], "neighbors-order", "%r limit %d: %r of %r" % (seq, m, rest, want))
    rec2 = types.Reconstruction()
    rec2.add_camera(cam)
    rec2.create_shot("z", "c", pose(np.eye(3), (0, 0, 0)))
    ck.expect([q.id for q in dense.find_neighboring_images(rec2.shots["z"], dd, rec2, 5)] == ["z"], "no-tracks", repr(seq))
    ck.outcome(tuple(seq))


def depth_range(ck, i, n):
    lo, hi = RANGES[i]
    R, C = rod((0.3, -0.2, 0.5)), np.array([1.0, 2, -3])
    rec = types.Reconstruction()
    cam = pygeometry.Camera.create_perspective(0.9, 0, 0)
    cam.id, cam.width, cam.height = "c", 100, 80
    rec.add_camera(cam)
    rec.create_shot("s", "c", pose(R, C))
    rec.create_shot("z", "c", pose(np.eye(3), (0, 0, 0)))
    tm = pymap.TracksManager()
    zs = []
    for j in range(n + 4):
        z = 2 + 5 * ((j * 7) % 11) / 11.0 + 0.1 * j
        X = R.T @ np.array([0.2 * j - 1, 0.5, z]) + C
        t = "t%d" % j
        who = "s" if j < n + 2 else "z"
        tm.add_observation(who, t, pymap.Observation(0.1, 0.1, 0.004, 1, 2, 3, j))
        if j != n + 1:
            rec.create_point(t, X)
        if who == "s" and j != n + 1:
            zs.append(z)
    got = dense.compute_depth_range(tm, rec, rec.shots["s"], {"depthmap_min_depth": lo, "depthmap_max_depth": hi})
    zs.sort()

    def pct(p):
        q = p * (len(zs) - 1)
        a = int(q)
        return zs[a] + (q - a) * (zs[min(a + 1, len(zs) - 1)] - zs[a])
    want = lo or pct(0.1) * 0.9, hi or pct(0.9) * 1.1
    ck.ev()
    ck.expect(np.allclose(got, want, rtol=1e-9), "range", "%r of %d points: %r instead of %r" % (RANGES[i], len(zs), got, want))
    ck.outcome((i, n))


# ---------------------------------------------------------------- estimation

def stereo(s, p, nv, mask=0):
    views = setup_views(s)[:nv + 1]
    n, d = PLANES[p]
    ims = [v.image(n, d) for v in views]
    ms = [np.ones(im.shape, np.uint8) for im in ims]
    if mask:
        y, x = np.mgrid[0:views[0].h, 0:views[0].w]
        ms[0] = (((x // 4 + y // 3) % 3 != 0) * 255).astype(np.uint8)
    return views, ims, ms


def brute(ck, s, p, size, planes, nv):
    views, ims, ms = stereo(s, p, nv)
    what = "%s %s patch %d, %d planes, %d views" % (s, p, size, planes, nv)
    lo, hi = 2.5, 8.0
    de = estimator(views, ims, ms, lo, hi, planes, size)
    D, P, S, N = de.compute_brute_force()
    h, w = ims[0].shape
    hp = (size - 1) // 2
    ck.expect(D.shape == (h, w) and P.shape == (h, w, 3) and S.shape == (h, w) and N.shape == (h, w), "shape", "%s: %r" % (what, (D.shape, P.shape, S.shape, N.shape)))
    depths = [lo] if planes == 1 else [1 / (1 / lo + (1 / hi - 1 / lo) * q / (planes - 1)) for q in range(planes)]
    inner = np.zeros((h, w), bool)
    inner[hp:h - hp, hp:w - hp] = True
    cand = []
    vague = np.zeros((h, w), bool)
    for q in depths:
        pl = np.tile([0, 0, -1 / q], (h, w, 1))
        for o in range(1, nv + 1):
            sc, vg = ncc(ims[0], ims[o], views[0], views[o], pl, hp)
            cand.append((q, o, sc))
            vague |= vg
    best = np.max([q[2] for q in cand], axis=0)
    sure = inner & ~vague
    ck.expect(not D[~inner].any() and not S[~inner].any(), "border", what)
    hit = best > 2e-3
    none = best < -2e-3
    ck.add("pixels judged", int(sure.sum()))
    ck.add("pixels near a border of the other image", int((inner & vague).sum()))
    ck.ev(int(sure.sum()))
    bad = sure & hit & (np.abs(S - best) > 2e-3)
    ck.expect(not bad.any(), "score", "%s: pixel %r scores %r instead of %r" % (what, np.argwhere(bad)[:1].tolist(), S[bad][:1].tolist(), best[bad][:1].tolist()))
    bad = sure & none & ((D != 0) | (S != 0))
    ck.expect(not bad.any(), "no-match", "%s: pixel %r has a depth without any match" % (what, np.argwhere(bad)[:1].tolist()))
    ok = np.zeros((h, w), bool)
    for q, o, sc in cand:
        ok |= (np.abs(D - q) < 1e-4 * q) & (N == o) & (sc > best - 2e-3)
    bad = sure & hit & ~ok
    ck.expect(not bad.any(), "depth", "%s: pixel %r has depth %r of view %r" % (what, np.argwhere(bad)[:1].tolist(), D[bad][:1].tolist(), N[bad][:1].tolist()))
    m = D > 0
    ck.expect(np.abs(P[m][:, 2] + 1 / D[m]).max() < 1e-4 and not P[m][:, :2].any() if m.any() else True, "plane", what)
    if p == "front" and planes == 1 and s == "flat":
        pass
    ck.outcome((s, p, size, planes, nv))


def patch(ck, s, p, sample, nv, sd, mask):
    views, ims, ms = stereo(s, p, nv, mask)
    y, x = np.mgrid[0:views[0].h, 0:views[0].w]
    ims[0][:7, :9] = 100 + (x[:7, :9] % 2)              # a part without texture
    size = 5
    hp = 2
    what = "%s %s %s, %d views, sd %g, mask %d" % (s, p, "sampled" if sample else "all views", nv, sd, mask)
    lo, hi = 2.5, 8.0
    h, w = ims[0].shape
    for it in (0, 1, 3):
        de = estimator(views, ims, ms, lo, hi, 50, size, sd, it)
        D, P, S, N = de.compute_patch_match_sample() if sample else de.compute_patch_match()
        ck.ev()
        inner = np.zeros((h, w), bool)
        inner[hp:h - hp, hp:w - hp] = True
        ck.expect(not D[~inner].any(), "border", what)
        var = np.zeros((h, w))
        for i in range(hp, h - hp):
            for j in range(hp, w - hp):
                var[i, j] = ims[0][i - hp:i + hp + 1, j - hp:j + hp + 1].astype(float).var()
        dark = (ms[0] == 0) | (var < sd * sd * (1 - 1e-5))
        maybe = np.abs(var - sd * sd) <= sd * sd * 1e-5
        ck.expect(not D[inner & dark].any() and not S[inner & dark].any() and not P[inner & dark].any(), "ignored", "%s: %d masked or flat pixels have a depth" % (what, int((D[inner & dark] != 0).sum())))
        live = inner & ~dark & ~maybe
        ck.expect((P[live] != 0).any(axis=1).all(), "live-plane", "%s: a pixel of the image was ignored" % what)
        # the depth of the plane of the pixel, smoothed away where it differs from its surroundings
        r = views[0].rays()
        den = -(P.astype(float) * r).sum(axis=2)
        with np.errstate(all="ignore"):
            pre = np.where((P != 0).any(axis=2), 1 / np.maximum(1e-6, den), 0)
        pre = np.where(inner, pre, 0)
        med = cv2.medianBlur(pre.astype(np.float32), 5).astype(float)
        with np.errstate(all="ignore"):
            dev = np.where(pre > 0, np.abs(pre - med) / pre, 1.0)
        keep = (dev <= 0.05) & (pre > 0)
        edge = np.abs(dev - 0.05) < 1e-4
        bad = ~edge & inner & keep & (np.abs(D - pre) > 1e-3 * pre)
        ck.expect(not bad.any(), "depth-of-plane", "%s: pixel %r has depth %r instead of the %r of its plane" % (what, np.argwhere(bad)[:1].tolist(), D[bad][:1].tolist(), pre[bad][:1].tolist()))
        bad = ~edge & inner & ~keep & (D != 0)
        ck.expect(not bad.any(), "outlier", "%s: pixel %r differs from its surroundings and stays" % (what, np.argwhere(bad)[:1].tolist()))
        # score and view
        scs = {o: ncc(ims[0], ims[o], views[0], views[o], P, hp) for o in range(1, nv + 1)}
        vague = np.any([scs[o][1] for o in scs], axis=0)
        sure = live & ~vague
        ck.add("pixels judged", int(sure.sum()))
        for o in scs:
            m = sure & (N == o)
            bad = m & (np.abs(S - scs[o][0]) > 3e-3)
            ck.expect(not bad.any(), "score", "%s: pixel %r scores %r in view %d instead of %r" % (what, np.argwhere(bad)[:1].tolist(), S[bad][:1].tolist(), o, scs[o][0][bad][:1].tolist()))
        best = np.max([scs[o][0] for o in scs], axis=0)
        m = sure & (N == 0)
        ck.expect(not (S[m] > -0.999).any() and (not sample or not m.any()), "no-view", "%s: score without a view" % what)
        if not sample:
            bad = sure & (np.abs(S - best) > 3e-3)
            ck.expect(not bad.any(), "best-view", "%s: pixel %r scores %r while a view gives %r" % (what, np.argwhere(bad)[:1].tolist(), S[bad][:1].tolist(), best[bad][:1].tolist()))
        ck.expect(((N >= 0) & (N <= nv)).all(), "view-index", "%s: %r" % (what, np.unique(N).tolist()))
        if it == 0:
            m = inner & ~dark & ~maybe
            ck.expect((pre[m] > lo * 0.999).all() and (pre[m] < hi * 1.001).all(), "initial-range", "%s: %r" % (what, (pre[m].min(), pre[m].max())))
        if it == 3 and nv > 1 and p != "steep" and s != "mixed":
            true = views[0].depth(*PLANES[p])[0]
            m = live & (S > 0.95) & (D > 0)
            ck.expect(m.sum() > 0.25 * live.sum() and np.median(np.abs(D[m] / true[m] - 1)) < 0.05, "accuracy",
                      "%s: %d of %d pixels, error %r" % (what, m.sum(), live.sum(), np.median(np.abs(D[m] / true[m] - 1)) if m.any() else None))
    ck.outcome((s, p, sample, nv, sd, mask))


# ---------------------------------------------------------------- cleaning and pruning

def tiles(v):
    y, x = np.mgrid[0:v.h, 0:v.w]
    return (x // 3 + 2 * (y // 3)) % 5


def pattern(v, name, z, t):
    f = {"exact": 1.0, "zero": 0.0, "above": 1 + 2.5 * t, "below": 1 - 2.5 * t, "near": 1 + 0.4 * t, "far": 1 - 0.6 * t}.get(name)
    if f is not None:
        return z * f
    if name == "mixed":
        return z * np.array([1.0, 1 + 2 * t, 1 - 0.5 * t, 0.0, 1 - 3 * t])[tiles(v)]
    return z * (tiles(v) != 2)


def maps(s, p, pats, t, small):
    views = setup_views(s, *((14, 11) if small else (26, 20)))[:len(pats) + 1]
    n, d = PLANES[p]
    D, P = [], []
    for k, v in enumerate(views):
        z, pl = v.depth(n, d)
        z = np.where(z > 0, z, 0)
        if k == 0:
            z = np.where(tiles(v) == 3, z * (1 + 6 * t), z)
            z[v.h // 2, ::3] = 0
        else:
            z = pattern(v, PATTERNS[pats[k - 1]], z, t)
        D.append(z.astype(np.float32))
        P.append(np.where((z > 0)[..., None], np.broadcast_to(pl, z.shape + (3,)), 0).astype(np.float32))
    return views, D, P


def bilinear(D, u, v):
    h, w = D.shape
    near = min(abs(u), abs(v), abs(u - (w - 1)), abs(v - (h - 1))) < 1e-3
    if u < 0 or v < 0 or u >= w - 1 or v >= h - 1:
        return 0.0, near
    i, j = int(v), int(u)
    a, b = v - i, u - j
    q = (1 - a) * ((1 - b) * D[i, j] + b * D[i, j + 1]) + a * ((1 - b) * D[i + 1, j] + b * D[i + 1, j + 1])
    vals = D[i:i + 2, j:j + 2]
    vague = near or (vals.max() - vals.min() > 1e-3 * max(1, vals.max()) and min(a, 1 - a, b, 1 - b) < 1e-3)
    return float(q), vague


def consistent(views, D, i, j, t):
    """how many views agree with a pixel of the first, at least and at most"""
    a = views[0]
    X = a.R.T @ (float(D[0][i, j]) * np.linalg.inv(a.K) @ np.array([j, i, 1.0]) - a.t)
    lo = hi = 1
    for v, d in zip(views[1:], D[1:]):
        x = v.K @ (v.R @ X + v.t)
        if x[2] < 1e-6:
            if x[2] > -1e-6:
                hi += 1
            continue
        q, vague = bilinear(d, x[0] / x[2], x[1] / x[2])
        e = abs(q - x[2]) - x[2] * t
        if vague or abs(e) < 1e-5 * x[2]:
            hi += 1
        elif e < 0:
            lo += 1
            hi += 1
    return lo, hi


def clean_map(views, D, t):
    h, w = D[0].shape
    return np.array([[consistent(views, D, i, j, t) for j in range(w)] for i in range(h)])


def judge_clean(ck, what, got, D0, cnt, m):
    sure_in, sure_out = cnt[..., 0] >= m, cnt[..., 1] < m
    ck.ev(int(got.size))
    bad = sure_in & (got != D0)
    ck.expect(got.shape == D0.shape and not bad.any(), "kept", "%s: consistent pixel %r of depth %r becomes %r" % (what, np.argwhere(bad)[:1].tolist(), D0[bad][:1].tolist(), got[bad][:1].tolist()))
    bad = sure_out & (got != 0)
    ck.expect(not bad.any(), "removed", "%s: inconsistent pixel %r stays" % (what, np.argwhere(bad)[:1].tolist()))
    bad = ~sure_in & ~sure_out & (got != 0) & (got != D0)
    ck.expect(not bad.any(), "value", "%s" % what)


def clean(ck, s, p, pats):
    for t in (0.01, 0.04):
        views, D, _ = maps(s, p, pats, t, True)
        cnt = clean_map(views, D, t)
        for m in (1, 2, 3, 4):
            dc = pydense.DepthmapCleaner()
            if t != 0.01:
                dc.set_same_depth_threshold(t)
            if m != 2:
                dc.set_min_consistent_views(m)
            for v, d in zip(views, D):
                dc.add_view(v.K, v.R, v.t, d)
            judge_clean(ck, "%s %s %r threshold %g views %d" % (s, p, [PATTERNS[q] for q in pats], t, m), dc.clean(), D[0], cnt, m)
    ck.outcome((s, p, tuple(pats)))


def unit(v):
    n = np.linalg.norm(v)
    return v / n if n else v


def pruned(views, D, P, t):
    """pixels of the first view that must, may and must not survive"""
    a = views[0]
    out = []
    for i in range(a.h):
        for j in range(a.w):
            z = float(D[0][i, j])
            if z <= 0:
                continue
            n = unit(P[0][i, j].astype(float))
            X = a.R.T @ (z * np.linalg.inv(a.K) @ np.array([j, i, 1.0]) - a.t)
            area = -n[2] / z * a.K[0, 0]
            must, may = True, True
            for v, d, pl in zip(views[1:], D[1:], P[1:]):
                x = v.K @ (v.R @ X + v.t)
                if x[2] < 1e-7:
                    continue
                u, w = x[0] / x[2] + 0.5, x[1] / x[2] + 0.5
                sure = min(abs(u - round(u)), abs(w - round(w))) > 1e-4
                drop = maybe = False
                for iu in {math.floor(u - 1e-4), math.floor(u + 1e-4)}:
                    for iw in {math.floor(w - 1e-4), math.floor(w + 1e-4)}:
                        if not (0 <= iu < v.w and 0 <= iw < v.h):
                            continue
                        q = float(d[iw, iu])
                        e = q - (1 - t) * x[2]
                        if q == 0 or e < -1e-5 * x[2]:
                            continue
                        m = unit(pl[iw, iu].astype(float))
                        g = (-m[2] / q * v.K[0, 0]) - area
                        if g < -1e-5 * abs(area):
                            continue
                        maybe = True
                        drop = sure and e > 1e-5 * x[2] and g > 1e-5 * abs(area)
                if drop:
                    must = may = False
                elif maybe:
                    must = False
            out.append((i, j, must, may, X, a.R.T @ n))
    return out


def judge_prune(ck, what, got, views, D, P, img, lab, t):
    pts, nrm, col, lb = got
    want = pruned(views, D, P, t)
    k = 0
    ck.ev(len(want))
    ck.expect(len(pts) == len(nrm) == len(col) == len(lb), "lengths", what)
    for i, j, must, may, X, n in want:
        here = k < len(pts) and np.abs(pts[k] - X).max() < 1e-4 * (1 + np.abs(X).max()) and may
        ck.expect(here or not must, "lost", "%s: point of pixel %r is missing" % (what, (i, j)))
        if not here:
            continue
        ck.expect(np.abs(nrm[k] - n).max() < 1e-4, "normal", "%s: pixel %r has normal %r instead of %r" % (what, (i, j), nrm[k].tolist(), n.tolist()))
        ck.expect(np.array_equal(col[k], img[i, j]) and int(np.ravel(lb)[k]) == int(lab[i, j]), "colour", "%s: pixel %r" % (what, (i, j)))
        k += 1
    ck.expect(k == len(pts), "extra", "%s: %d points that should be pruned, first %r" % (what, len(pts) - k, pts[k].tolist() if k < len(pts) else None))


def prune(ck, s, p, pats):
    for t in (0.01, 0.04):
        views, D, P = maps(s, p, pats, t, True)
        dp = pydense.DepthmapPruner()
        if t != 0.01:
            dp.set_same_depth_threshold(t)
        imgs, labs = [], []
        for k, (v, d, pl) in enumerate(zip(views, D, P)):
            y, x = np.mgrid[0:v.h, 0:v.w]
            imgs.append(np.dstack((10 * k + x, 3 * y, x * y % 251)).astype(np.uint8))
            labs.append(((x + 5 * y + k) % 200).astype(np.uint8))
            dp.add_view(v.K, v.R, v.t, d, pl, imgs[k], labs[k])
        judge_prune(ck, "%s %s %r threshold %g" % (s, p, [PATTERNS[q] for q in pats], t), dp.prune(), views, D, P, imgs[0], labs[0], t)
    ck.outcome((s, p, tuple(pats)))


# ---------------------------------------------------------------- on disk

# (method, masks, segmentation, ignored labels, resolution, min views, matching views, missing image, processes, debug files, kinds of size)
DISK = [("BRUTE_FORCE", 0, 0, (), 640, 2, 1, 3, 1, 0, 0), ("BRUTE_FORCE", 0, 0, (), 640, 2, 6, None, 1, 1, 0), ("BRUTE_FORCE", 0, 1, (), 16, 3, 6, None, 1, 0, 1), ("PATCH_MATCH", 1, 1, (2,), 640, 2, 2, None, 1, 0, 0),
        ("PATCH_MATCH_SAMPLE", 1, 0, (), 20, 3, 6, None, 1, 1, 1), ("PATCH_MATCH_SAMPLE", 0, 1, (1, 3), 640, 2, 6, None, 2, 0, 0), ("BRUTE_FORCE", 0, 1, (), 640, 2, 1, 2, 1, 0, 0),
        ("BRUTE_FORCE", 0, 0, (), 640, 2, 1, 0, 2, 0, 1), ("BRUTE_FORCE", 0, 0, (), 640, 1, 6, None, 3, 0, 0), ("PATCH_MATCH_SAMPLE", 1, 1, (), 13, 2, 1, 1, 1, 0, 0),
        ("OTHER", 0, 0, (), 640, 2, 6, None, 1, 0, 0), ("BRUTE_FORCE", 0, 0, (), 640, 2, 6, "isolated", 1, 0, 0), ("PATCH_MATCH", 1, 1, (2, 3), 17, 2, 6, None, 2, 1, 1)]
DISK += [(m, a, b, ig, r, v, q, mi, pr, db, k) for m in ("BRUTE_FORCE", "PATCH_MATCH_SAMPLE") for a, b in ((0, 0), (1, 1)) for ig in ((), (2,)) for r in (640, 16)
         for v in (1, 3) for q in (1, 6) for mi in (None, 1) for pr in (1, 2) for db, k in ((0, 0), (0, 1))]


def load_ply(path):
    with open(path) as f:
        lines = f.read().split("\n")
    n = [int(q.split()[2]) for q in lines if q.startswith("element vertex")][0]
    k = lines.index("end_header") + 1
    return np.array([[float(v) for v in q.split()] for q in lines[k:k + n]]).reshape(n, -1 if n else 10), lines[:k]



def disk(ck, i):
    method, masks, segs, ignore, res, minviews, matching, missing, procs, debug, kind = DISK[i]
    root = os.path.join(ck.scratch, "d")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/images")
    with open(root + "/images/x.png", "w") as f:
        f.write("")
    with open(root + "/config.yaml", "w") as f:
        f.write("processes: %d\ndepthmap_method: %s\ndepthmap_resolution: %d\ndepthmap_min_consistent_views: %d\ndepthmap_num_matching_views: %d\n"
                "depthmap_save_debug_files: %s\ndepthmap_num_neighbors: 3\ndepthmap_patch_size: 5\ndepthmap_same_depth_threshold: 0.03\nsegmentation_ignore_values: %s\ndepthmap_patchmatch_iterations: 2\n"
                % (procs, method, res, minviews, matching, "yes" if debug else "no", list(ignore)))
    data = dataset.DataSet(root)
    u = dataset.UndistortedDataSet(data, root + "/undistorted", io_handler=data.io_handler)
    n, d = PLANES["slanted"]
    views = setup_views("turned" if kind else "flat", 30, 24)
    names = ["a.png", "b.jpg.png", "c", "d.tif"][:4]
    names[2] = "c.png"
    rec = types.Reconstruction()
    tm = pymap.TracksManager()
    pts = {}
    for q in range(90):
        P = np.array([1.6 * math.sin(1.7 * q), 1.2 * math.cos(2.3 * q), 0])
        P[2] = (d - n[0] * P[0] - n[1] * P[1]) / n[2]
        pts["t%d" % q] = P
    blind = [range(0), range(3), range(3, 10), range(10, 15)]   # tracks an image does not see
    imgs, msk, seg = {}, {}, {}
    for v, s in zip(views, names):
        cam = pygeometry.Camera.create_perspective(v.f, 0, 0)
        cam.id, cam.width, cam.height = "c" + s, v.w, v.h
        rec.add_camera(cam)
        rec.create_shot(s, cam.id, pose(v.R, v.C))
        y, x = np.mgrid[0:v.h, 0:v.w]
        imgs[s] = v.image(n, d, 0, True)
        if not (missing is not None and missing != "isolated" and s == names[missing]):
            u.save_undistorted_image(s, imgs[s])
        if masks and s != names[1]:
            msk[s] = ((x // 5 + y // 4) % 3 != 0).astype(np.uint8) * 255
            u.save_undistorted_mask(s, msk[s])
        if segs and s != names[2]:
            seg[s] = ((x // 6) % 4 + (y // 6) % 2).astype(np.uint8)
            u.save_undistorted_segmentation(s, seg[s])
        for q, P in pts.items():
            if missing == "isolated" and s == names[3] or int(q[1:]) in blind[names.index(s)]:
                continue
            tm.add_observation(s, q, pymap.Observation(0.1, 0.1, 0.004, 1, 2, 3, int(q[1:])))
    for q, P in pts.items():
        rec.create_point(q, P)
    u.save_undistorted_reconstruction([rec])
    u.save_undistorted_tracks_manager(tm)
    from opensfm.actions import compute_depthmaps
    sub = "undistorted"
    what = "files %r" % (DISK[i],)
    if procs == 1:
        compute_depthmaps.run_dataset(data, sub, False)
    else:
        dense.compute_depthmaps(u, tm, rec)
    ck.ev()
    # neighbours as the tracks and angles say
    near = {}
    for a in names:
        sc = []
        for b in names:
            if a == b or missing == "isolated" and names[3] in (a, b):
                continue
            k = 0
            for t, P in pts.items():
                if int(t[1:]) in blind[names.index(a)] or int(t[1:]) in blind[names.index(b)]:
                    continue
                p, q = rec.shots[a].pose.get_origin() - P, rec.shots[b].pose.get_origin() - P
                th = math.acos(p @ q / math.sqrt((p @ p) * (q @ q)))
                k += math.pi / 60 < th < math.pi / 6
            if k > 20:
                sc.append((b, k))
        near[a] = [q[0] for q in sorted(sc, key=lambda q: -q[1])]
        ck.expect(len({q[1] for q in sc}) == len(sc), "scene", "%s: ties among %r" % (what, sc))
    lost = names[missing] if isinstance(missing, int) else None
    V = {s: v for s, v in zip(names, views)}
    raw = {}
    scaled = {}
    for s in names:
        v = V[s]
        w = min(v.w, res)
        scaled[s] = View(v.f, w, w * v.h // v.w, v.R, v.C)
        use = [s] + near[s][:matching]
        fine = len(near[s]) > 0 and lost not in use and method != "OTHER"
        ck.expect(u.raw_depthmap_exists(s) == fine, "raw-exists", "%s: %s %r (neighbours %r)" % (what, s, u.raw_depthmap_exists(s), near[s]))
        if not fine:
            continue
        D, P, S, N, ids = u.load_raw_depthmap(s)
        raw[s] = D, P, S, N
        ck.expect(list(ids) == near[s], "raw-neighbors", "%s: %s %r instead of %r" % (what, s, list(ids), near[s]))
        ck.expect(D.shape == (scaled[s].h, w), "raw-shape", "%s: %s %r" % (what, s, D.shape))
        ck.expect(not (D != 0)[S <= 0.1].any() and (D.any() or masks), "raw-score", "%s: %s keeps pixels of low score" % (what, s))
        zs = sorted(float((v.R @ q + v.t)[2]) for t, q in pts.items() if int(t[1:]) not in blind[names.index(s)])
        hi = np.percentile(zs, 90) * 1.1
        lo = np.percentile(zs, 10) * 0.9
        ck.expect(D.max() < hi, "raw-range", "%s: %s has depth %g > %g" % (what, s, D.max(), hi))
        if method == "BRUTE_FORCE":
            planes = {round(1 / (1 / lo + (1 / hi - 1 / lo) * q / 99), 5) for q in range(100)}
            ck.expect(all(min(abs(x - y) for y in planes) < 1e-3 for x in np.unique(D[D > 0])), "raw-planes", "%s: %s" % (what, s))
        else:
            dark = np.zeros(D.shape, bool)
            full = np.ones((v.h, v.w), np.uint8)
            if s in msk:
                full = full & (msk[s] != 0)
            if s in seg:
                for q in ignore:
                    full = full & (seg[s] != q)
            dark = cv2.resize(full.astype(np.uint8), (D.shape[1], D.shape[0]), interpolation=cv2.INTER_NEAREST) == 0
            ck.expect(not D[dark].any(), "raw-mask", "%s: %s has depths under its mask" % (what, s))
            ck.expect(P[2:-2, 2:-2][~dark[2:-2, 2:-2]].any(axis=1).all(), "raw-unmasked", "%s: %s" % (what, s))
        true = scaled[s].depth(n, d)[0]
        m = (S > 0.97) & (D > 0)
        if res >= 20 and matching > 1 and lost is None and missing is None and m.sum() > 30 and method == "BRUTE_FORCE":
            ck.expect(np.median(np.abs(D[m] / true[m] - 1)) < 0.08, "raw-accuracy", "%s: %s error %g of %d" % (what, s, np.median(np.abs(D[m] / true[m] - 1)), m.sum()))
    cleaned = {}
    for s in names:
        ck.expect(u.clean_depthmap_exists(s) == (s in raw), "clean-exists", "%s: %s" % (what, s))
        if s not in raw:
            continue
        order = [s] + [q for q in near[s][:3] if q in raw]
        cnt = clean_map([scaled[q] for q in order], [raw[q][0] for q in order], 0.03)
        D, P, S = u.load_clean_depthmap(s)
        judge_clean(ck, what + " " + s, D, raw[s][0], cnt, minviews)
        ck.expect(np.array_equal(P, raw[s][1]) and np.array_equal(S, raw[s][2]), "clean-planes", "%s: %s" % (what, s))
        cleaned[s] = D, P
    allp = []
    for s in names:
        ck.expect(u.pruned_depthmap_exists(s) == (s in cleaned), "pruned-exists", "%s: %s" % (what, s))
        if s not in cleaned:
            continue
        order = [s] + [q for q in near[s][:3] if q in cleaned]
        got = u.load_pruned_depthmap(s)
        v = scaled[s]
        img = data.io_handler.imread(u._undistorted_image_file(s))
        img = cv2.resize(img, (v.w, v.h), interpolation=cv2.INTER_AREA)
        lab = cv2.resize(seg[s], (v.w, v.h), interpolation=cv2.INTER_NEAREST) if s in seg else np.zeros((v.h, v.w), np.uint8)
        judge_prune(ck, what + " " + s, got, [scaled[q] for q in order], [cleaned[q][0] for q in order], [cleaned[q][1] for q in order], img, lab, 0.03)
        allp.append(got)
    merged, head = load_ply(u.point_cloud_file())
    total = sum(len(q[0]) for q in allp)
    ck.expect(len(merged) == total, "merged", "%s: %d points instead of %d" % (what, len(merged), total))
    if total:
        back = [np.asarray(q) for q in u.load_point_cloud()]
        ck.expect(all(len(q) == total for q in back) and np.abs(back[0] - merged[:, :3]).max() < 1e-4 and np.abs(back[1] - merged[:, 3:6]).max() < 1e-4
                  and np.array_equal(back[2].astype(int), merged[:, 6:9].astype(int)) and np.array_equal(np.ravel(back[3]).astype(int), merged[:, 9].astype(int)), "merged-back", what)
        B = [np.hstack((p, q, c, np.reshape(l, (-1, 1)))) for p, q, c, l in allp]
        ck.expect(any((np.abs(merged - np.concatenate(o)) < [7e-5] * 3 + [6e-4] * 3 + [1e-6] * 4).all() for o in itertools.permutations(B)), "merged-points", "%s: not the points of the images" % what)
    if debug:
        for s in raw:
            g, _ = load_ply(u.depthmap_file(s, "raw.npz.ply"))
            D = raw[s][0]
            v = scaled[s]
            X = (v.rays() * D[..., None] - v.t) @ v.R
            ck.expect(len(g) == (D != 0).sum() and (not len(g) or np.abs(g[:, :3] - X[D != 0]).max() < 1e-5), "debug-ply", "%s: %s" % (what, s))
    # a map that was not pruned does not count
    if len(allp) > 1:
        for s in cleaned:
            f = u.depthmap_file(s, "pruned.npz")
            os.rename(f, f + ".away")
            try:
                pts = dense.merge_depthmaps(u, rec)[0]
                rest = sum(len(q[0]) for q, k in zip(allp, [q for q in names if q in cleaned]) if k != s)
                ck.expect(len(pts) == rest, "merged-without", "%s: %d points without %s instead of %d" % (what, len(pts), s, rest))
            except Exception as e:
                ck.fail("merged-without", "%s: without the pruned map of %s: %r" % (what, s, e))
            finally:
                os.rename(f + ".away", f)
    # again: nothing is computed twice
    before = {s: [a.copy() for a in raw[s]] for s in raw}
    dense.compute_depthmaps(u, tm, rec)
    for s in raw:
        ck.expect(all(np.array_equal(a, b) for a, b in zip(before[s], u.load_raw_depthmap(s)[:4])), "again", "%s: %s recomputed" % (what, s))
    ck.expect(sorted(load_ply(u.point_cloud_file())[0].tolist()) == sorted(merged.tolist()), "again-merged", what)
    ck.outcome(("disk", i))
    shutil.rmtree(root, ignore_errors=True)


# ---------------------------------------------------------------- parts

def merge(ck, k):
    def provider(s):
        n = int(s[1:])
        return (np.arange(3 * n).reshape(n, 3) + 100.0 * n, np.arange(3 * n).reshape(n, 3) + 0.5, np.full((n, 3), n, np.uint8), np.full((n,), n, np.uint8))
    ids = ["s%d" % q for q in (2, 0, 5, 1)][:k]
    got = dense.merge_depthmaps_from_provider(ids, provider)
    ck.ev()
    want = [provider(s) for s in ids]
    for j in range(4):
        w = np.concatenate([q[j] for q in want]) if want else np.array([])
        ck.expect(np.array_equal(got[j], w), "merge", "%r part %d" % (ids, j))
    ck.outcome(k)


def ply(ck, k):
    v = setup_views(["flat", "turned", "mixed"][k % 3], 9, 7)[min(k % 3 + 1, 2)]
    z, _ = v.depth(*PLANES["slanted"])
    z[1::2, ::3] = 0
    z *= [1, 0.01, 30][k // 3]
    rec = types.Reconstruction()
    cam = pygeometry.Camera.create_perspective(v.f, 0, 0)
    cam.id, cam.width, cam.height = "c", v.w * 10, v.h * 10
    rec.add_camera(cam)
    shot = rec.create_shot("s", "c", pose(v.R, v.C))
    img = (np.arange(v.w * v.h * 3) % 251).reshape(v.h, v.w, 3).astype(np.uint8)
    path = os.path.join(ck.scratch, "x.ply")
    with open(path, "w") as f:
        f.write(dense.depthmap_to_ply(shot, z, img))
    g, head = load_ply(path)
    X = (v.rays() * z[..., None] - v.t) @ v.R
    m = z != 0
    ck.ev()
    ck.expect(len(g) == m.sum() and np.abs(g[:, :3] - X[m]).max() < 1e-6 and np.array_equal(g[:, 3:6], img[m]), "ply", "%d" % k)
    ck.outcome(k)
