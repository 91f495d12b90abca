"""C12: matching returns exactly the mutually consistent ratio-test matches of the unmasked features, in the features'
own indices, filtered by geometry, and stores each pair once."""
import itertools
import os

import numpy as np
from memdata import MemData
from opensfm import dataset, feature_loader, features, matching, pygeometry

LEVEL = "exploration"
RULE = ("all descriptor layouts of up to 3x3 (4x4) features from a small alphabet with all pair masks through the brute force, word "
        "and FLANN matchers against a direct ratio test; all feature masks of both images through match_descriptors and "
        "match; two-view scenes (cameras x motions x wrong matches) through the robust stage; guided matching; static, pole "
        "and watermark filters; storing and finding matches for all splits of the pairs; non-trivial: distinct results")
ASSUMPTIONS = ["distances are away from the ratio limit by rounding", "FLANN finds the exact neighbours in sets this small"]


def cfg(**k):
    d = MemData().config
    d.update(k)
    return d


def ratio_match(D, ratio, mask=None):
    """[(i, j)]: best j for i passes the ratio test against its second best; needs two candidates"""
    out = set()
    for i in range(D.shape[0]):
        js = [j for j in range(D.shape[1]) if mask is None or mask[i][j]]
        if len(js) < 2:
            continue
        js.sort(key=lambda j: D[i, j])
        if D[i, js[0]] < ratio * D[i, js[1]]:
            out.add((i, js[0]))
    return out


def l2(a, b):
    return np.sqrt(((a[:, None, :].astype(float) - b[None, :, :].astype(float)) ** 2).sum(2))


def hamming(a, b):
    return np.array([[sum(bin(int(x) ^ int(y)).count("1") for x, y in zip(r, s)) for s in b] for r in a], float)


VALS = [0.0, 1.0, 3.0, 10.0]


def cases(ck):
    out = []
    for n1, n2 in itertools.product((1, 2, 3), repeat=2):
        for seq in itertools.product(VALS, repeat=n1):
            if list(seq) == sorted(seq) or n1 < 3:
                out.append(["brute", list(seq), n2])
    for n1 in (2, 3):
        out.append(["hamming", n1])
    for k in range(8):
        out.append(["words", k])
    for k in range(6 if ck.quick else 20):
        out.append(["flann", k])
    for n in (2, 3, 4):
        out.append(["masked", n])
    for c in range(len(CAMS)):
        for c2 in (c, (c + 2) % len(CAMS)):
            for m in range(len(MOTIONS)):
                out.append(["robust", c, c2, m])
    for c in range(len(CAMS)):
        for m in range(len(MOTIONS)):
            out.append(["guided", c, m])
    for c in (0, 4):
        out.append(["filters", c])
    for n in (2, 3):
        out.append(["store", n])
    out += [["images"], ["missing"], ["static"], ["poles"], ["diverging"]]
    for a in range(len(GEOM)):
        out.append(["geometry", a])
    for guided in (False, True):
        for c in (0, 1):
            out.append(["whole", guided, c])
    return out


def check(ck, case):
    feature_loader.instance.clear_cache()
    globals()["check_" + case[0]](ck, *case[1:])


def pad(vals, dim=4, dtype=np.float32):
    d = np.zeros((len(vals), dim), dtype)
    d[:, 0] = vals
    return d


def check_brute(ck, seq, n2):
    for seq2 in itertools.product([0.2, 1.3, 3.4, 9.0], repeat=n2):
        f1, f2 = pad(seq), pad(seq2)
        D = l2(f1, f2)
        masks = [None]
        if len(seq) * n2 <= (6 if ck.quick else 9):
            masks += [np.array(m).reshape(len(seq), n2) for m in itertools.product((False, True), repeat=len(seq) * n2)]
        for ratio in (0.8, 0.5):
            for mask in masks:
                if mask is not None and ratio == 0.5:
                    continue
                c = cfg(lowes_ratio=ratio)
                got = matching.match_brute_force(f1, f2, c, mask)
                want = ratio_match(D, ratio, mask)
                ck.ev()
                ck.expect(set(got) == want and len(got) == len(want), "brute",
                          "descriptors %r and %r, ratio %g, mask %r: %r instead of %r" % (seq, seq2, ratio, mask, got, want))
                got = matching.match_brute_force_symmetric(f1, f2, c, mask)
                back = {(i, j) for j, i in ratio_match(D.T, ratio, None if mask is None else mask.T)}
                ck.expect(set(got) == want & back and len(got) == len(want & back), "brute-symmetric",
                          "descriptors %r and %r, ratio %g, mask %r: %r instead of %r" % (seq, seq2, ratio, mask, got, want & back))
                ck.outcome((tuple(seq), seq2, ratio, frozenset(got)))
    ck.sample({"f1": seq, "n2": n2})


def check_hamming(ck, n1):
    alpha = [0, 1, 7, 255]
    for s1 in itertools.product(alpha, repeat=n1):
        for s2 in itertools.product(alpha, repeat=2):
            f1, f2 = pad(s1, 8, np.uint8), pad(s2, 8, np.uint8)
            c = cfg(lowes_ratio=0.8)
            want = ratio_match(hamming(f1, f2), 0.8)
            got = matching.match_brute_force(f1, f2, c)
            ck.ev()
            ck.expect(set(got) == want, "hamming", "binary descriptors %r and %r: %r instead of %r" % (s1, s2, got, want))
            ck.outcome((s1, s2, frozenset(got)))


def words_oracle(f1, w1, f2, w2, ratio, checks):
    out = set()
    D = l2(f1, f2)
    for i in range(len(f1)):
        seen = []
        for w in w1[i]:
            seen += [j for j in range(len(f2)) if w2[j][0] == w]
            if len(seen) >= checks:
                break
        d = sorted((D[i, j], j) for j in seen)
        if d and (len(d) == 1 or d[0][0] < ratio * d[1][0]):
            out.add((i, d[0][1]))
    return out


def check_words(ck, k):
    """words of image 2: all assignments; words of image 1: all ordered pairs of distinct words"""
    pairs = [p for p in itertools.permutations(range(4), 2)]
    vals1, vals2 = [0.0, 4.0], [0.3, 3.0, 4.6]
    f1, f2 = pad(vals1), pad(vals2)
    ratio, checks = [(0.8, 20), (0.8, 1), (0.8, 2), (0.4, 20), (0.4, 2), (0.95, 3), (0.1, 20), (0.6, 1)][k]
    c = cfg(lowes_ratio=ratio, bow_num_checks=checks)
    for p1 in pairs:
        for p2 in pairs[k % 2::2]:
            for first in itertools.product(range(4), repeat=3):
                w1 = np.array([p1, p2], dtype=np.int32)
                w2 = np.array([[w, (w + 1) % 4] for w in first], dtype=np.int32)
                got = {tuple(int(x) for x in m) for m in matching.match_words(f1, w1, f2, w2, c)}
                want = words_oracle(f1, w1, f2, w2, ratio, checks)
                ck.ev()
                ck.expect(got == want, "words", "words %r, %r, ratio %g, %d checks: %r instead of %r" % (
                    w1.tolist(), w2.tolist(), ratio, checks, got, want))
                sym = {tuple(int(x) for x in m) for m in matching.match_words_symmetric(f1, w1, f2, w2, c)}
                wsym = want & {(i, j) for j, i in words_oracle(f2, w2, f1, w1, ratio, checks)}
                ck.expect(sym == wsym, "words-symmetric", "words %r, %r, ratio %g, %d checks: %r instead of %r" % (
                    w1.tolist(), w2.tolist(), ratio, checks, sym, wsym))
                ck.outcome((k, p1, p2, first, frozenset(got)))


def check_flann(ck, k):
    rng = np.random.RandomState(k)
    n1, n2 = 6 + k % 3, 5 + k % 4
    f1 = (rng.rand(n1, 16) * 100).astype(np.float32)
    f2 = np.concatenate([f1[: n2 - 2] + rng.rand(n2 - 2, 16).astype(np.float32), (rng.rand(2, 16) * 100).astype(np.float32)])
    for alg in ("KMEANS", "KDTREE"):
        c = cfg(flann_algorithm=alg, flann_checks=200, lowes_ratio=0.8)
        i1, i2 = features.build_flann_index(f1, c), features.build_flann_index(f2, c)
        D = l2(f1, f2)
        got = {(int(a), int(b)) for a, b in matching.match_flann(i1, f2, c)}
        want = {(i, j) for j, i in ratio_match(D.T, 0.8)}
        ck.ev()
        ck.expect(got == want, "flann", "layout %d %s: %r instead of %r" % (k, alg, got, want))
        got = {(int(a), int(b)) for a, b in matching.match_flann_symmetric(f1, i1, f2, i2, c)}
        want &= ratio_match(D, 0.8)
        ck.expect(got == want, "flann-symmetric", "layout %d %s: %r instead of %r" % (k, alg, got, want))
        ck.outcome((k, alg, frozenset(got)))


def grid_points(n):
    return [[-0.35 + 0.7 * (i + 0.5) / n, -0.2 + 0.11 * (i % 3), 0.01] for i in range(n)]


def mask_image(points, keep, w=64, h=48):
    """A mask that keeps the given points only (each point owns a column)."""
    m = np.zeros((h, w), np.uint8)
    n = len(points)
    for (x, y, _), k in zip(points, keep):
        px = int((x * max(w, h) + w / 2.0))
        if k:
            m[:, max(0, px - 2):px + 3] = 255
    return m


def check_masked(ck, n):
    """match_descriptors over all masks of both images, for each matcher"""
    pts = grid_points(n)
    cam = pygeometry.Camera.create_perspective(0.9, 0.0, 0.0)
    cam.id = "cam"
    base = [7.0 * i * i + i for i in range(n)]
    f1, f2 = pad(base), pad([v + 0.1 for v in reversed(base)])
    for k1 in itertools.product((0, 1), repeat=n):
        for k2 in itertools.product((0, 1), repeat=n):
            if n == 4 and sum(k1) == 4 and sum(k2) not in (2, 4):
                continue
            for matcher, sym in (("BRUTEFORCE", True), ("BRUTEFORCE", False), ("WORDS", True), ("WORDS", False), ("FLANN", True)):
                if matcher == "FLANN" and (min(sum(k1), sum(k2)) < 2 or n < 3):
                    continue
                data = MemData(matcher_type="NONE", symmetric_matching=not sym, lowes_ratio=0.8)
                data.add("a", pts, f1, cam)
                data.add("b", pts, f2, cam)
                data.masks = {"a": mask_image(pts, k1), "b": mask_image(pts, k2)}
                for im in "ab":
                    w = np.zeros((n, 2), np.int32)
                    w[:, 1] = 1
                    data.words[im] = w
                over = {"matcher_type": matcher, "symmetric_matching": sym}
                got = matching.match_descriptors("a", "b", cam, cam, data, over)
                ck.ev()
                D = l2(f1, f2)
                m = np.outer(k1, k2).astype(bool)
                if min(sum(k1), sum(k2)) < 2:
                    want = set()
                elif matcher == "WORDS":
                    want = words_mask(D, m, sym)
                else:
                    want = ratio_match(D, 0.8, m)
                    if sym:
                        want &= {(i, j) for j, i in ratio_match(D.T, 0.8, m.T)}
                    if matcher == "FLANN" and not sym:
                        want = {(i, j) for j, i in ratio_match(D.T, 0.8, m.T)}
                ck.expect({tuple(map(int, x)) for x in got} == want and len(got) == len(want), "masked",
                          "%s symmetric %r, unmasked features %r and %r: %r instead of %r" % (matcher, sym, k1, k2, got.tolist(), want))
                ck.outcome((n, k1, k2, matcher, sym, frozenset(want)))


def words_mask(D, m, sym):
    def one(D, m):
        out = set()
        for i in range(len(D)):
            js = sorted((D[i, j], j) for j in range(D.shape[1]) if m[i, j])
            if js and (len(js) == 1 or js[0][0] < 0.8 * js[1][0]):
                out.add((i, js[0][1]))
        return out
    a = one(D, m)
    return a & {(i, j) for j, i in one(D.T, m.T)} if sym else a


def mkcams():
    C = pygeometry.Camera
    out = [C.create_perspective(0.9, 0.0, 0.0), C.create_perspective(0.9, -0.1, 0.02), C.create_fisheye(0.6, 0.02, 0.01),
           C.create_brown(0.9, 1.02, np.array([0.003, 0.002]), np.array([-0.03, 0.01, 0.0, 0.001, 0.0005])), C.create_spherical()]
    for i, c in enumerate(out):
        c.id, c.width, c.height = "cam%d" % i, 640, 480
    return out


CAMS = mkcams()
MOTIONS = [((0.0, 0.0, 0.0), (1.0, 0.1, 0.05)), ((0.05, -0.2, 0.1), (0.8, -0.3, 0.2)), ((0.0, 0.3, 0.0), (-1.2, 0.0, 0.4)),
           ((0.1, 0.1, -0.1), (0.1, 0.9, 0.1))]


def scene(c1, c2, m, n=40):
    """Features and exact matches of a two-view scene: feature i of the first image is feature n-1-i of the second."""
    rng = np.random.RandomState(11)
    rot, org = MOTIONS[m]
    pose1, pose2 = pygeometry.Pose(), pygeometry.Pose(np.array(rot))
    pose2.set_origin(np.array(org))
    p1, p2, X = [], [], []
    while len(p1) < n:
        x = np.array([rng.uniform(-2.5, 2.5), rng.uniform(-2, 2), rng.uniform(4, 9)])
        a, b = c1.project(pose1.transform(x)), c2.project(pose2.transform(x))
        if max(abs(np.concatenate([a, b]))) < 0.48 and (pose2.transform(x)[2] > 1):
            p1.append([a[0], a[1], 0.01])
            p2.append([b[0], b[1], 0.01])
            X.append(x)
    return np.array(p1), np.array(p2)[::-1].copy(), pose2, np.array(X)


def epi_error(c1, c2, pose2, p1, p2):
    """angle of the match with the true epipolar planes"""
    b1 = c1.pixel_bearing(p1[:2])
    b2 = pose2.get_R_cam_to_world().dot(c2.pixel_bearing(p2[:2]))
    t = pose2.get_origin()
    nrm = lambda v: v / np.linalg.norm(v)
    return max(abs(np.dot(nrm(np.cross(t, b1)), b2)), abs(np.dot(nrm(np.cross(t, b2)), b1)))


def epi_mean(c1, c2, pose2, p1, p2):
    b1 = c1.pixel_bearing(p1[:2])
    b2 = pose2.get_R_cam_to_world().dot(c2.pixel_bearing(p2[:2]))
    t = pose2.get_origin()
    nrm = lambda v: v / np.linalg.norm(v)
    return 0.5 * (abs(np.dot(nrm(np.cross(t, b1)), b2)) + abs(np.dot(nrm(np.cross(t, b2)), b1)))


def check_robust(ck, c1, c2, m):
    cam1, cam2 = CAMS[c1], CAMS[c2]
    n = 40
    p1, p2, pose2, _ = scene(cam1, cam2, m, n)
    exact = [(i, n - 1 - i) for i in range(n)]
    for wrong in ([], [3], [0, 7, 8, 20], list(range(0, 16, 2))):
        ms = list(exact)
        for q, i in enumerate(wrong):
            ms[i] = (exact[i][0], exact[(i + 13 + 3 * q) % n][1])
        ms = np.array(ms)
        good = {tuple(x) for x in exact} & {tuple(x) for x in ms.tolist()}
        for mask2 in (False, True):
            data = MemData(robust_matching_min_match=20)
            data.add("a", p1, pad(range(n)), cam1)
            data.add("b", p2, pad(range(n)), cam2)
            drop = set()
            if mask2:
                drop = {int(ms[5][0]), int(ms[18][0])}
                keep = np.array([i not in drop for i in range(n)])
                sub = np.cumsum(keep) - 1
                inp = np.array([(sub[a], b) for a, b in ms if keep[a]])
                loader = feature_loader.instance
                orig = loader.load_mask
                loader.load_mask = lambda d, im: keep if im == "a" else np.ones(n, bool)
            else:
                inp = ms
            try:
                np.random.seed(7)
                got = matching.match_robust("a", "b", inp, cam1, cam2, data, {})
            finally:
                if mask2:
                    del loader.load_mask
                feature_loader.instance.clear_cache()
            ck.ev()
            res = {tuple(map(int, x)) for x in got}
            what = "%s/%s motion %d, wrong matches %r, masked %r" % (cam1.projection_type, cam2.projection_type, m, wrong, mask2)
            allowed = {tuple(map(int, x)) for x in ms if x[0] not in drop}
            ck.expect(res <= allowed, "robust-subset", "%s: %r were not among the matches" % (what, res - allowed))
            lost = {g for g in good if g[0] not in drop} - res
            ck.expect(len(lost) <= 0.05 * n, "robust-lost", "%s: %d correct matches are lost" % (what, len(lost)))
            bad = [x for x in res if x not in good and epi_error(cam1, cam2, pose2, p1[x[0]], p2[x[1]]) > 0.05]
            ck.expect(not bad, "robust-wrong", "%s: wrong matches %r are kept" % (what, bad))
            ck.outcome((c1, c2, m, len(wrong), mask2, len(res)))
    # fewer than the minimum: none
    for minm in (39, 40, 41, 7):
        data = MemData(robust_matching_min_match=5)
        data.add("a", p1, pad(range(n)), cam1)
        data.add("b", p2, pad(range(n)), cam2)
        got = matching.match_robust("a", "b", np.array(exact), cam1, cam2, data, {"robust_matching_min_match": minm})
        ck.ev()
        ck.expect(len(got) == 0 or len(got) >= minm, "robust-min", "minimum %d: %d matches" % (minm, len(got)))
    data = MemData(robust_matching_min_match=0)
    data.add("a", p1, pad(range(n)), cam1)
    data.add("b", p2, pad(range(n)), cam2)
    kept = len(matching.match_robust("a", "b", np.array(exact), cam1, cam2, data, {}))
    for extra in (0, 1):
        got = matching.match_robust("a", "b", np.array(exact), cam1, cam2, data, {"robust_matching_min_match": kept + extra})
        ck.expect(len(got) == (0 if extra else kept), "robust-limit", "%d matches with a minimum of %d: %d" % (kept, kept + extra, len(got)))
    for k in range(0, 8):
        data = MemData(robust_matching_min_match=0)
        data.add("a", p1, pad(range(n)), cam1)
        data.add("b", p2, pad(range(n)), cam2)
        got = matching.match_robust("a", "b", np.array(exact[:k]).reshape(k, 2), cam1, cam2, data, {})
        ck.expect(len(got) == 0, "robust-few", "%d matches: %r" % (k, got))
    # full match: descriptors + geometry
    desc1 = np.zeros((n, 8), np.float32)
    desc1[np.arange(n), np.arange(n) % 8] = 10.0 * (1 + np.arange(n) // 8)
    desc2 = desc1[::-1].copy()
    for pose in (None, pose2):
        data = MemData(matcher_type="BRUTEFORCE", robust_matching_min_match=15)
        data.add("a", p1, desc1, cam1)
        data.add("b", p2, desc2, cam2)
        got = matching.match("a", "b", cam1, cam2, data, {}, pose)
        ck.ev()
        res = {tuple(map(int, x)) for x in got}
        want = n
        if pose is not None:
            mask = np.array([[epi_mean(cam1, cam2, pose2, a, b) < np.sin(0.006) for b in p2] for a in p1])
            D = l2(desc1, desc2)
            want = len(ratio_match(D, 0.8, mask) & {(i, j) for j, i in ratio_match(D.T, 0.8, mask.T)})
            if want < 18:
                continue
        ck.expect(res <= set(exact) and len(res) >= 0.9 * want, "match", "%s/%s motion %d guided %r: %d of %d, wrong %r" % (
            cam1.projection_type, cam2.projection_type, m, pose is not None, len(res), n, res - set(exact)))
        got = matching.match("a", "b", cam1, cam2, data, {"robust_matching_min_match": n + 1}, pose)
        ck.expect(len(got) == 0, "match-min", "more matches required than exist: %r" % (got,))
    ck.sample({"cameras": [cam1.projection_type, cam2.projection_type], "motion": m})


def check_guided(ck, c, m):
    """the epipolar mask agrees with the true epipolar geometry for every pair of features"""
    cam = CAMS[c]
    p1, p2, pose2, _ = scene(cam, cam, m, 12)
    b1, b2 = cam.pixel_bearing_many(p1[:, :2].copy()), cam.pixel_bearing_many(p2[:, :2].copy())
    t = pose2.get_origin()
    R = pose2.get_R_cam_to_world()
    nrm = lambda v: v / np.linalg.norm(v)
    for thr in (0.002, 0.01, 0.1):
        mask = matching.compute_inliers_bearing_epipolar(b1, b2, pose2, thr)
        ck.ev()
        ck.expect(mask.shape == (12, 12), "guided-shape", "mask %r" % (mask.shape,))
        for i in range(12):
            for j in range(12):
                w = R.dot(b2[j])
                e = (abs(np.dot(nrm(np.cross(t, b1[i])), w)) + abs(np.dot(nrm(np.cross(t, w)), b1[i]))) / 2
                ang = np.arcsin(min(1, e))
                if abs(ang - thr) > 1e-4:
                    ck.expect(bool(mask[i, j]) == (ang < thr), "guided", "%s motion %d threshold %g features %d, %d at %g: %r" % (
                        cam.projection_type, m, thr, i, j, ang, mask[i, j]))
        ck.outcome((c, m, thr, mask.tobytes()))
        inl = matching.compute_inliers_bearings(b1, b2[::-1], R, t, thr)
        ck.expect(all(inl), "inliers", "%s motion %d: exact matches are no inliers: %r" % (cam.projection_type, m, inl))


def check_filters(ck, c):
    cam = CAMS[c]
    n = 6
    xs = [-0.4, -0.2, 0.0, 0.1, 0.3, 0.45]
    ys = [-0.3, -0.2, -0.1, 0.1, 0.2, 0.3]
    for moved in itertools.product((0, 1), repeat=n):
        for make1, make2 in itertools.product([("m", "x"), ("VTrans_Camera", "VTrans_Camera"), ("BlackVue", "x"), ("VTrans_Camera", "x")], repeat=2):
            p1 = np.array([[x, y, 0.01] for x, y in zip(xs, ys)])
            p2 = p1 + np.array([[0.01 * k + 0.0003, 0, 0] for k in moved])
            data = MemData(matching_use_filters=True)
            data.add("a", p1, pad(range(n)), cam, **dict(zip(("make", "model"), make1)))
            data.add("b", p2, pad(range(n)), cam, **dict(zip(("make", "model"), make2)))
            ms = [(i, i) for i in range(n)]
            got = matching.apply_adhoc_filters(data, list(ms), "a", cam, p1, "b", cam, p2)
            ck.ev()
            keep = [i for i in range(n) if moved[i]]
            if 1 - len(keep) / n > 0.85:
                keep = list(range(n))
            if c == 4:
                keep = [i for i in keep if abs(ys[i]) < 0.125]
            for mk in (make1, make2):
                if mk == ("VTrans_Camera", "VTrans_Camera"):
                    keep = [i for i in keep if ys[i] > -0.255]
                if mk[0].lower() == "blackvue":
                    keep = [i for i in keep if ys[i] < 0.263]
            ck.expect([tuple(x) for x in got] == [(i, i) for i in keep], "filters", "moved %r, makes %r: %r instead of %r" % (
                moved, (make1, make2), got, keep))
            ck.outcome((c, moved, make1, make2))


def check_store(ck, n):
    names = ["i%d.jpg" % i for i in range(n)]
    pairs = list(itertools.combinations(names, 2))
    path = os.path.join(ck.scratch, "ds_store")
    os.makedirs(os.path.join(path, "images"), exist_ok=True)
    for nm in names:
        open(os.path.join(path, "images", nm), "w").close()
    kinds = [None, np.array([[0, 1], [2, 5]]), np.array([])]
    for orient in itertools.product((0, 1), repeat=len(pairs)):
        for content in itertools.product(range(3), repeat=len(pairs)):
            for rm in range(1, 2 ** n):
                ref = [x for i, x in enumerate(names) if rm >> i & 1]
                d = {}
                for (a, b), o, k in zip(pairs, orient, content):
                    if kinds[k] is not None:
                        d[(b, a) if o else (a, b)] = kinds[k]
                ds = dataset.DataSet(path)
                import shutil
                shutil.rmtree(os.path.join(path, "matches"), ignore_errors=True)
                illegal = [p for p in d if p[0] not in ref and p[1] not in ref]
                ck.ev()
                if illegal:
                    try:
                        matching.save_matches(ds, ref, d)
                        ck.fail("store-illegal", "matches of %r saved for %r" % (illegal, ref))
                    except RuntimeError:
                        pass
                    continue
                matching.save_matches(ds, ref, d)
                for im in names:
                    ck.expect(ds.matches_exists(im) == (im in ref), "store-exists", "%r saved for %r: %s has a file: %r" % (
                        d, ref, im, ds.matches_exists(im)))
                for (a, b), m in d.items():
                    # stored under its first image if that is a reference image, else turned round
                    f, r = np.array(ds.find_matches(a, b)), np.array(ds.find_matches(b, a))
                    ok = np.array_equal(f, m) and np.array_equal(r, m[:, [1, 0]] if len(m) else m)
                    ck.expect(ok, "store-find", lambda: "%r saved for %r: find(%s, %s) = %r, find(%s, %s) = %r" % (
                        d, ref, a, b, f.tolist(), b, a, r.tolist()))
                for a, b in pairs:
                    if (a, b) not in d and (b, a) not in d:
                        ck.expect(len(ds.find_matches(a, b)) == 0, "store-none", "%r saved for %r: %r found" % (d, ref, (a, b)))
                ck.outcome((n, orient, content, rm))


def check_images(ck):
    """match_images: each candidate pair once, indices along the pair's order, whatever the order of the images"""
    n = 40
    cam = CAMS[1]
    p1, p2, pose2, _ = scene(cam, cam, 0, n)
    desc = np.zeros((n, 8), np.float32)
    desc[np.arange(n), np.arange(n) % 8] = 10.0 * (1 + np.arange(n) // 8)
    for order in itertools.permutations(["a", "b", "c"]):
        for procs in (1, 3):
            data = MemData(matcher_type="BRUTEFORCE", matching_gps_distance=0, processes=procs)
            data.add("a", p1, desc, cam)
            data.add("b", p2, desc[::-1].copy(), cam)
            data.add("c", p1[:10], pad(np.arange(10) * 100, 8), cam)
            got, rep = matching.match_images(data, {}, list(order), list(order))
            ck.ev()
            keys = {tuple(sorted(k)) for k in got}
            ck.expect(len(got) == 3 and keys == {("a", "b"), ("a", "c"), ("b", "c")}, "images", "order %r: pairs %r" % (order, list(got)))
            for (x, y), m in got.items():
                if {x, y} == {"a", "b"}:
                    ck.expect(len(m) >= 36 and all(int(i) + int(j) == n - 1 for i, j in m), "images-matches", "order %r: %r" % (order, m))
                else:
                    ck.expect(len(m) == 0, "images-none", "order %r, %r: %r" % (order, (x, y), m))
            matching.save_matches(data, data.images(), got)
            ck.expect(set(data.saved) == {"a", "b", "c"} and sum(len(v) for v in data.saved.values()) == 3, "images-saved",
                      "order %r: saved %r" % (order, {k: list(v) for k, v in data.saved.items()}))
            ck.outcome(("im", order, procs))
    # poses known: guided
    data = MemData(matcher_type="BRUTEFORCE", robust_matching_min_match=8)
    data.add("a", p1, desc, cam)
    data.add("b", p2, desc[::-1].copy(), cam)
    base = pygeometry.Pose(np.array([0.3, 0.1, -0.2]), np.array([4.0, 5.0, 6.0]))
    poses = {"a": base, "b": pose2.compose(base)}
    got = matching.match_images_with_pairs(data, {}, data.exifs, [("a", "b"), ("b", "a")], poses)
    mask = np.array([[epi_mean(cam, cam, pose2, a, b) < np.sin(0.006) for b in p2] for a in p1])
    D = l2(desc, desc[::-1])
    want = ratio_match(D, 0.8, mask) & {(i, j) for j, i in ratio_match(D.T, 0.8, mask.T)}
    assert len(want) >= 10, len(want)
    for (x, y), m in got.items():
        ck.ev()
        res = {(int(i), int(j)) if x == "a" else (int(j), int(i)) for i, j in m}
        ck.expect(res <= want and len(res) >= 0.9 * len(want), "images-guided", "%r: %r instead of %r" % ((x, y), m, want))
    ck.expect(len(got) == 2, "images-guided", "pairs %r" % (list(got),))


STATES = ["missing", 0, 1, 2, "nodesc", 12, "masked"]


def check_missing(ck):
    """Images without features, descriptors or enough of them have no matches; nothing fails."""
    cam = CAMS[1]
    p1, p2, pose2, _ = scene(cam, cam, 0, 12)
    desc = (np.random.RandomState(3).rand(12, 8) * 50).astype(np.float32)
    for s1, s2 in itertools.product(STATES, repeat=2):
        for matcher, sym in itertools.product(("BRUTEFORCE", "FLANN", "WORDS"), (True, False)):
            if matcher == "FLANN" and 2 in (s1, s2):
                continue
            data = MemData(matcher_type=matcher, symmetric_matching=sym, robust_matching_min_match=8)
            for im, st, p, d in (("a", s1, p1, desc), ("b", s2, p2, desc[::-1].copy())):
                k = st if isinstance(st, int) else 12
                data.add(im, p[:k], None if st == "nodesc" else d[:k], cam)
                if st == "missing":
                    del data.feats[im]
                if st == "masked":
                    data.masks[im] = np.zeros((48, 64), np.uint8)
                w = np.zeros((k, 2), np.int32)
                w[:, 1] = 1
                data.words[im] = w
            few = [st for st in (s1, s2) if st != 12 and st != 2]
            for what, f in (("descriptors", lambda: matching.match_descriptors("a", "b", cam, cam, data, {})), ("match", lambda: matching.match("a", "b", cam, cam, data, {}, None)),
                            ("guided", lambda: matching.match("a", "b", cam, cam, data, {}, pose2)),
                            ("robust", lambda: matching.match_robust("a", "b", [(i, 11 - i) for i in range(12)], cam, cam, data, {})),
                            ("robust-unmasked", lambda: matching.match_robust("a", "b", [(i, 11 - i) for i in range(12)], cam, cam, data, {}, False))):
                if what.startswith("robust") and [st for st in (s1, s2) if st not in ("missing", 0, 1, "nodesc", 12, "masked")]:
                    continue
                rob = what.startswith("robust")
                none = [st for st in (s1, s2) if st in (("missing", 0, 1, "masked") if what == "robust" else ("missing", 0, 1))] if rob else few
                feature_loader.instance.clear_cache()
                try:
                    got = f()
                except Exception as e:
                    ck.fail("missing-" + what, "%s symmetric %r with images %r and %r: raised %r" % (matcher, sym, s1, s2, e))
                    continue
                ck.ev()
                if none:
                    ck.expect(len(got) == 0, "missing-" + what, "%s with images %r and %r: %r" % (matcher, s1, s2, got))
                elif rob or (s1 == s2 == 12 and what != "guided"):
                    ck.expect({(int(i), int(j)) for i, j in got} <= {(i, 11 - i) for i in range(12)} and len(got) >= 8, "missing-" + what, "%s with images %r and %r: %r" % (matcher, s1, s2, got))
                ck.outcome((s1, s2, matcher, sym, what))
    for bad in ("", "BRUTE", "WORD"):
        data = MemData(matcher_type=bad)
        data.add("a", p1, desc, cam)
        data.add("b", p2, desc, cam)
        try:
            matching.match_descriptors("a", "b", cam, cam, data, {})
            ck.fail("matcher-type", "matcher %r is accepted" % bad)
        except ValueError:
            pass
    # caches: features are loaded again once they are cleared
    data = MemData(matcher_type="brUteforce")
    data.add("a", p1, desc, cam)
    data.add("b", p2, desc[::-1].copy(), cam)
    matching.match_descriptors("a", "b", cam, cam, data, {})
    data.feats["b"] = (p2, desc, data.feats["b"][2], None)
    matching.clear_cache()
    got = {(int(i), int(j)) for i, j in matching.match_descriptors("a", "b", cam, cam, data, {})}
    ck.expect(got == {(i, i) for i in range(12)}, "cache", "after the features have changed: %r" % got)


def check_static(ck):
    """What does not move between the images is dropped, unless nearly everything is static."""
    cam = CAMS[0]
    moves = [(0, 0), (0.0009, 0), (0.0011, 0), (0, 0.0009), (0, -0.0011), (0.0008, 0.0008), (-0.0006, 0.0006), (-0.0011, 0)]
    n = 9
    for shift in range(3):
        perm = [(i * 2 + shift) % n for i in range(n)]
        for combo in itertools.product(range(len(moves)), repeat=2 if ck.quick else 3):
            mv = [moves[combo[i % len(combo)]] if i < 7 else (0.2, 0.1) for i in range(n)]
            for rows in (n, 7):
                xs = [(-0.3 + 0.07 * i, -0.2 + 0.03 * i) for i in range(n)]
                p1 = np.array([[x, y, 0.01] for x, y in xs])
                p2 = np.zeros((n, 3))
                for i in range(n):
                    p2[perm[i]] = [xs[i][0] + mv[i][0], xs[i][1] + mv[i][1], 0.5]
                ms = [(i, perm[i]) for i in range(rows)]
                data = MemData()
                data.add("a", p1, pad(range(n)), cam)
                data.add("b", p2, pad(range(n)), cam)
                got = [tuple(x) for x in matching.apply_adhoc_filters(data, list(ms), "a", cam, p1, "b", cam, p2)]
                want = [(i, j) for i, j in ms if np.hypot(*mv[i]) > 0.001]
                if 1 - len(want) / len(ms) > 0.85:
                    want = ms
                ck.ev()
                ck.expect(got == want, "static", "matches %r moved by %r: %r instead of %r" % (ms, mv, got, want))
                ck.outcome((shift, combo, rows))
    got = matching.apply_adhoc_filters(data, [], "a", cam, p1, "b", cam, p2)
    ck.expect(len(got) == 0, "static", "without matches: %r" % (got,))


def check_poles(ck):
    """Bounds of panoramas and watermarks, per image."""
    ys = [-0.3, -0.256, -0.254, -0.126, -0.124, 0.0, 0.124, 0.126, 0.262, 0.264]
    n = len(ys)
    vt, bv, no = ("VTrans_Camera", "VTrans_Camera"), ("BlackVue", "q"), ("m", "x")
    for c1, c2 in itertools.product((0, 4), repeat=2):
        for mk1, mk2 in itertools.product((no, vt, bv, ("VTrans_Camera", "x"), ("x", "VTrans_Camera"), ("BLACKVUE", "x")), repeat=2):
            for k in range(n):
                perm = [(i + k) % n for i in range(n)]
                p1 = np.array([[-0.4 + 0.03 * i, y, 0.01] for i, y in enumerate(ys)])
                p2 = np.array([[0.1 + 0.03 * i, y, 0.01] for i, y in enumerate(ys)])
                data = MemData()
                data.add("a", p1, pad(range(n)), CAMS[c1], **dict(zip(("make", "model"), mk1)))
                data.add("b", p2, pad(range(n)), CAMS[c2], **dict(zip(("make", "model"), mk2)))
                ms = list(zip(range(n), perm))
                got = [tuple(x) for x in matching.apply_adhoc_filters(data, list(ms), "a", CAMS[c1], p1, "b", CAMS[c2], p2)]

                def ok(y, c, mk):
                    return (c != 4 or abs(y) < 0.125) and (mk != vt or y > -0.255) and (mk[0].lower() != "blackvue" or y < 0.263)
                want = [(i, j) for i, j in ms if ok(ys[i], c1, mk1) and ok(ys[j], c2, mk2)]
                ck.ev()
                ck.expect(got == want, "poles", "cameras %d, %d, makes %r, %r, matches %r: %r instead of %r" % (c1, c2, mk1, mk2, ms, got, want))
                ck.outcome((c1, c2, mk1, mk2, k))


def check_diverging(ck):
    """Bearings that meet nowhere are no inliers, the others are judged by themselves."""
    cam = CAMS[1]
    p1, p2, pose2, _ = scene(cam, cam, 0, 5)
    b1, b2 = cam.pixel_bearing_many(p1[:, :2].copy()), cam.pixel_bearing_many(p2[::-1, :2].copy())
    R, t = pose2.get_R_cam_to_world(), pose2.get_origin()
    for kinds in itertools.product((0, 1, 2), repeat=5):
        x, y = b1.copy(), b2.copy()
        for i, k in enumerate(kinds):
            if k == 1:
                y[i] = R.T.dot(x[i])     # parallel
            if k == 2:
                y[i] = R.T.dot(np.array([x[i][1], -x[i][0] + 0.5, x[i][2]]) / np.linalg.norm([x[i][1], -x[i][0] + 0.5, x[i][2]]))
        got = [bool(v) for v in matching.compute_inliers_bearings(x, y, R, t, 0.004)]
        ck.ev()
        bad = [i for i in range(5) if kinds[i] == 0 and not got[i] or kinds[i] == 1 and got[i]]
        ck.expect(len(got) == 5 and not bad, "diverging", "bearings %r (0 exact, 1 parallel, 2 other): %r" % (kinds, got))
        ck.outcome((kinds, tuple(got)))


def geom():
    C = pygeometry.Camera
    out = []
    for k1, k2 in ((0.0, 0.0), (1e-9, 0.0), (0.0, 1e-9)):
        out.append((C.create_perspective(0.9, k1, k2), k1 == k2 == 0))
        out.append((C.create_brown(0.9, 1.0, np.array([0.0, 0.0]), np.array([k1, k2, 0.0, 0.0, 0.0])), k1 == k2 == 0))
    out.append((C.create_fisheye(0.9, 0.0, 0.0), False))
    for i, (c, _) in enumerate(out):
        c.id, c.width, c.height = "g%d" % i, 640, 480
    return out


GEOM = geom()


def check_geometry(ck, a):
    """Undistorted perspective pairs are filtered by the fundamental matrix and its threshold, others by calibrated geometry and its own."""
    n = 40
    for b in range(len(GEOM)):
        (cam1, z1), (cam2, z2) = GEOM[a], GEOM[b]
        p1, p2, pose2, _ = scene(cam1, cam2, 1, n)
        rng = np.random.RandomState(5)
        p1[:, 2], p2[:, 2] = rng.uniform(0.005, 0.05, n), rng.uniform(0.005, 0.05, n)
        p2[:, :2] += rng.uniform(-0.004, 0.004, (n, 2))
        ms = np.array([(i, n - 1 - i) for i in range(n)])
        for fund, calib in ((0.00002, 0.05), (0.05, 0.00002), (0.05, 0.05)):
            np.random.seed(3)
            got = matching.robust_match(p1, p2, cam1, cam2, ms, cfg(robust_matching_threshold=fund, robust_matching_calib_threshold=calib))
            ck.ev()
            limit = fund if z1 and z2 else calib
            ok = len(got) >= 0.9 * n if limit > 0.01 else len(got) <= 0.6 * n
            ck.expect(ok, "geometry", "%s k1=%g k2=%g and %s k1=%g k2=%g, thresholds %g and %g, noise of 0.004: %d of %d matches kept" % (
                cam1.projection_type, getattr(cam1, "k1"), getattr(cam1, "k2"), cam2.projection_type, getattr(cam2, "k1"), getattr(cam2, "k2"), fund, calib, len(got), n))
            ck.outcome((a, b, fund, calib))


def check_whole(ck, guided, c):
    """match with masks and filters: the matches of the features that are left, in the features' own indices"""
    cam = CAMS[c]
    n = 40
    p1, p2, pose2, _ = scene(cam, cam, 0, n)
    desc1 = (np.random.RandomState(4).rand(n, 8) * 50).astype(np.float32)
    desc2 = desc1[::-1].copy()
    halves = [None, 0, 1, 2, 3]
    for h1, h2 in itertools.product(halves, repeat=2):
        for filt in (None, False, True):
            for mk1, mk2 in ((("m", "x"), ("BlackVue", "x")), (("BlackVue", "x"), ("m", "x"))):
                data = MemData(matcher_type="BRUTEFORCE", robust_matching_min_match=1, guided_matching_threshold=0.3)
                if filt is not None:
                    data.config["matching_use_filters"] = filt
                data.add("a", p1, desc1, cam, height=640, make=mk1[0])
                data.add("b", p2, desc2, cam, height=640, make=mk2[0])
                keep = {}
                for im, h, p in (("a", h1, p1), ("b", h2, p2)):
                    m = np.full((640, 640), 255, np.uint8)
                    keep[im] = [True] * n
                    if h is not None:
                        ax = h // 2
                        px = p[:, ax] * 640 + 320
                        q = np.sort(px)
                        g = max(range(10, 30), key=lambda i: q[i + 1] - q[i])
                        cut = (q[g] + q[g + 1]) / 2
                        assert q[g + 1] - q[g] > 4
                        out = np.arange(640) < cut if h % 2 == 0 else np.arange(640) > cut
                        if ax == 0:
                            m[:, out] = 0
                        else:
                            m[out] = 0
                        data.masks[im] = m
                        keep[im] = [(x > cut) == (h % 2 == 0) for x in px]
                feature_loader.instance.clear_cache()
                got = matching.match("a", "b", cam, cam, data, {}, pose2 if guided else None)
                desc = matching.match_descriptors("a", "b", cam, cam, data, {})
                low = lambda p, mk: mk[0] != "BlackVue" or p[1] < 0.263
                cand = {(i, n - 1 - i) for i in range(n) if keep["a"][i] and keep["b"][n - 1 - i]}
                if filt:
                    cand = {(i, j) for i, j in cand if low(p1[i], mk1) and low(p2[j], mk2)}
                ck.ev()
                what = "camera %d, guided %r, masks %r and %r, filters %r, makes %s and %s" % (c, guided, h1, h2, filt, mk1[0], mk2[0])
                res = {(int(i), int(j)) for i, j in desc}
                slack = {(i, j) for i, j in res - cand if not (keep["a"][i] and keep["b"][n - 1 - i])}   # the true partner is masked: any may pass the ratio
                ck.expect(res - slack == cand, "whole-descriptors", "%s: %r instead of %r" % (what, sorted(res), sorted(cand)))
                ck.expect(all(keep["a"][i] and keep["b"][j] for i, j in res), "whole-masked", "%s: masked features in %r" % (what, sorted(res)))
                res = {(int(i), int(j)) for i, j in got}
                ck.expect(all(keep["a"][i] and keep["b"][j] for i, j in res), "whole-masked", "%s: masked features in %r" % (what, sorted(res)))
                if filt:
                    ck.expect(all(low(p1[i], mk1) and low(p2[j], mk2) for i, j in res), "whole-filter", "%s: watermark in %r" % (what, sorted(res)))
                if len(cand) >= 15:
                    ck.expect(len(res & cand) >= 0.9 * len(cand), "whole-lost", "%s: %r of %r" % (what, sorted(res), sorted(cand)))
                ck.outcome((c, guided, h1, h2, filt, mk1))
