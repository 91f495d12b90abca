"""C19: solvers and robust estimators find the motion the data share, with exactly the samples that agree with it."""
import itertools
import math

import cv2
import numpy as np
from opensfm import multiview, pygeometry, pyrobust, reconstruction as orec

import bascene
from scene import rod

LEVEL = "exploration"
RULE = ("all motions of a lattice x layouts x subsets of points for every solver; all places of up to k wrong samples x models x scores x options for the estimators; "
        "non-trivial: distinct (solver or model, motion, layout, subset or wrong samples, options)")
ASSUMPTIONS = ["samples exact but for the wrong ones, which are far off", "no fewer right samples than the model needs and one more (two for five-point models, where five samples always fit)"]
ROT = [(0, 0, 0), (0.1, -0.05, 0.02), (-0.3, 0.4, 0.1), (0.02, 0.7, -0.5), (1.2, 0.3, -0.4), (0.3, -2.0, 0.5)]
DIR = [np.array(v, float) / np.linalg.norm(v) for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (-1, 0.2, 0.3), (1, -1, 1), (-0.3, -0.5, -1))]
LAYOUTS = ["space", "deep", "around", "plane"]


def cloud(layout, n, k=0):
    rng = np.random.RandomState(31 + k)
    X = rng.uniform(-1, 1, (n, 3))
    if layout == "space":
        return X * [2.5, 2, 1.5] + [0, 0, 5]
    if layout == "deep":
        return np.column_stack([X[:, 0], X[:, 1], np.ones(n)]) * (4 + 3 * X[:, 2:]) * [0.6, 0.6, 1]
    if layout == "around":
        return X / np.linalg.norm(X, axis=1)[:, None] * (4 + 2 * rng.uniform(0, 1, (n, 1)))
    return np.column_stack([X[:, 0] * 2.5, X[:, 1] * 2, 5 + 0.4 * X[:, 0] - 0.6 * X[:, 1]])


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def skew(t):
    return np.array([[0, -t[2], t[1]], [t[2], 0, -t[0]], [-t[1], t[0], 0]])


def views(R, t, X):
    return unit(X), unit(X @ R.T + t)


def off(b, i, amount=0.3):
    """a direction well away from b, differently for every i"""
    a = np.array([math.sin(1.7 * i + 0.4), math.cos(2.3 * i + 1.1), math.sin(3.1 * i + 2.0)])
    a = a - b * (a @ b)
    return unit(b + a / np.linalg.norm(a) * (amount + 0.11 * ((i * 7) % 5)))


def midpoint(x, y, R, t):
    """point halfway between the two rays, in the first camera, or None if they are parallel"""
    c, d = -R.T @ t, R.T @ y
    A = np.array([[x @ x, -x @ d], [x @ d, -d @ d]])
    if abs(np.linalg.det(A)) < 1e-12:
        return None
    l = np.linalg.solve(A, [x @ c, d @ c])
    return (l[0] * x + c + l[1] * d) / 2


def cases(ck):
    out = []
    for solver in ("five", "npoints", "decompose", "three", "pose", "known", "rotation", "refine"):
        for r in range(len(ROT)):
            for d in range(len(DIR)):
                out.append([solver, r, d])
    out += [["ransac", m, s, n] for m in MODELS for s in ("RANSAC", "MSAC", "LMedS") for n in ((8, 10) if ck.quick else (8, 9, 10, 11, 12))]
    out += [["many", m] for m in MODELS]
    out += [["few", m] for m in MODELS]
    out += [["wrappers", r, d] for r in range(len(ROT)) for d in range(len(DIR))]
    out += [["homography", r, d] for r in range(1, 4) for d in range(len(DIR))]
    out += [["matrices", r] for r in range(len(ROT))]
    out += [["up", k] for k in range(27)]
    out += [["similarity", n] for n in ((6, 7) if ck.quick else (6, 7, 8, 9))]
    out += [["pair", a, b, lay] for a, b in itertools.product(KINDS, KINDS if not ck.quick else KINDS[:2]) for lay in ("space", "plane")]
    out += [["turn", a, b] for a, b in itertools.product(KINDS, KINDS)]
    out += [["reversal", r, d] for r in range(1, 4) for d in range(len(DIR))]
    return out


def check(ck, case):
    globals()[case[0] + "_"](ck, *case[1:])


# ---- solvers


def five_(ck, r, d):
    R, t = rod(ROT[r]), DIR[d]
    E = skew(t) @ R
    E = E / np.linalg.norm(E)
    for lay in LAYOUTS[:3]:
        x, y = views(R, t, cloud(lay, 8))
        for s in itertools.combinations(range(8), 5):
            s = list(s)
            Es = pygeometry.essential_five_points(x[s], y[s])
            ck.ev()
            ck.outcome(("five", r, d, lay, tuple(s)))
            what = "five points %r (%s) of motion %d %d" % (s, lay, r, d)
            ck.expect(any(min(np.abs(e - E).max(), np.abs(e + E).max()) < 1e-4 for e in Es), "five-points", "%s: none of %d matrices is the right one" % (what, len(Es)))
            for e in Es:
                ck.expect(np.abs(np.einsum("ij,jk,ik->i", y[s], e, x[s])).max() < 1e-6, "five-epipolar", "%s: matrix %r does not fit the points" % (what, e))
                ck.expect(abs(np.linalg.norm(e) - 1) < 1e-9, "five-norm", "%s: norm %r" % (what, np.linalg.norm(e)))


def npoints_(ck, r, d):
    R, t = rod(ROT[r]), DIR[d]
    E = skew(t) @ R
    E = E / np.linalg.norm(E)
    for lay in LAYOUTS[:3]:
        x, y = views(R, t, cloud(lay, 11))
        for n in (8, 9, 10, 11):
            for s in itertools.combinations(range(11), n):
                if n < 10 and (sum(s) + s[0]) % 5:
                    continue
                s = list(s)
                Es = pygeometry.essential_n_points(x[s], y[s])
                ck.ev()
                ck.outcome(("npoints", r, d, lay, tuple(s)))
                if n == 8:  # needs one more than unknowns
                    ck.expect(len(Es) <= 1, "n-points", "%d matrices" % len(Es))
                    continue
                ck.expect(len(Es) == 1 and min(np.abs(Es[0] / np.linalg.norm(Es[0]) - E).max(), np.abs(Es[0] / np.linalg.norm(Es[0]) + E).max()) < 1e-5, "n-points",
                          "points %r (%s) of motion %d %d: %r instead of %r" % (s, lay, r, d, Es, E))


def decompose_(ck, r, d):
    R, t = rod(ROT[r]), DIR[d]
    E = skew(t) @ R
    U, _, Vt = np.linalg.svd(E)
    U, Vt = U * np.sign(np.linalg.det(U)), Vt * np.sign(np.linalg.det(Vt))
    W = np.array([[0, -1, 0], [1, 0, 0], [0, 0, 1.0]])
    four = [(A, s * t) for s in (1, -1) for A in (U @ W @ Vt, U @ W.T @ Vt)]
    for lay in ("space", "around"):
        x, y0 = views(R, t, cloud(lay, 6, 1))
        for mask in range(64):
            y = y0.copy()
            for i in range(6):
                if mask >> i & 1:
                    y[i] = off(-y0[i] if i % 2 else y0[i], i)
            for s in ([0, 1, 2, 3, 4, 5], [0, 1, 2], [3], [4, 5]):
                scores = []
                for A, tt in four:
                    sc = 0.0
                    for i in s:
                        p = midpoint(x[i], y[i], A, tt)
                        if p is not None:
                            sc += (unit(p) @ x[i] + unit(A @ p + tt) @ y[i]) / 2
                    scores.append(sc)
                for scale in (1, -2.5):
                    Rt = pygeometry.relative_pose_from_essential(scale * E, x[s], y[s])
                    ck.ev()
                    ck.outcome(("decompose", r, d, lay, mask, len(s), scale))
                    which = [k for k, (A, tt) in enumerate(four) if np.abs(Rt[:, :3] - A).max() < 1e-6 and np.abs(Rt[:, 3] - tt).max() < 1e-6]
                    what = "motion %d %d, points %r (%s) with wrong %s, matrix times %g" % (r, d, s, lay, bin(mask), scale)
                    ck.expect(len(which) == 1, "decomposition", "%s: %r is none of the four decompositions" % (what, Rt))
                    ck.expect(not which or scores[which[0]] > max(scores) - 1e-9, "decomposition-best", "%s: decomposition %r of scores %r" % (what, which, scores))


def posed(r, d, lay, n, k=0):
    """bearings and world points of a camera [R|t]"""
    X = cloud(lay, n, k)  # in the camera
    R, t = rod(ROT[r]), DIR[d] * 3
    return R, t, unit(X), (X - t) @ R


def three_(ck, r, d):
    for lay in LAYOUTS:
        R, t, b, X = posed(r, d, lay, 6)
        want = np.column_stack([R, t])
        for s in itertools.permutations(range(6), 3):
            s = list(s)
            got = pygeometry.absolute_pose_three_points(b[s] * (1 + s[0]), X[s])
            ck.ev()
            ck.outcome(("three", r, d, lay, tuple(s)))
            what = "points %r (%s) from pose %d %d" % (s, lay, r, d)
            ck.expect(any(np.abs(g - want).max() < 1e-3 for g in got), "three-points", "%s: none of %r is %r" % (what, got, want))
            for g in got:
                ck.expect(np.isfinite(g).all(), "three-finite", "%s: %r" % (what, g))
                ck.expect(np.abs(g[:, :3] @ g[:, :3].T - np.eye(3)).max() < 1e-9 and np.linalg.det(g[:, :3]) > 0, "three-rotation", "%s: %r" % (what, g))


def pose_(ck, r, d):
    for lay in ("space", "deep", "around"):
        for k in range(4):
            R, t, b, X = posed(r, d, lay, 14, k)
            want = np.column_stack([R, t])
            for drop in itertools.chain([()], itertools.combinations(range(14), 1), itertools.combinations(range(14), 2)):
                s = [i for i in range(14) if i not in drop]
                got = pygeometry.absolute_pose_n_points(b[s] * (1 + k), X[s])
                ck.ev()
                ck.outcome(("pose", r, d, lay, k, drop))
                ck.expect(np.abs(got - want).max() < 2e-2, "n-point-pose", "without points %r (%s %d) from pose %d %d: %r instead of %r" % (drop, lay, k, r, d, got, want))


def known_(ck, r, d):
    for lay in LAYOUTS:
        R, t, b, X = posed(r, d, lay, 7)
        Y = X @ R.T
        for n in range(2, 8):
            for s in itertools.combinations(range(7), n):
                s = list(s)
                got = pygeometry.absolute_pose_n_points_known_rotation(b[s] * 2, Y[s])
                ck.ev()
                ck.outcome(("known", r, d, lay, tuple(s)))
                ck.expect(np.abs(got - t).max() < 1e-7, "known-rotation", "points %r (%s) from pose %d %d: %r instead of %r" % (s, lay, r, d, got, t))


def rotation_(ck, r, d):
    for lay in LAYOUTS:
        x = unit(cloud(lay, 7) @ rod(DIR[d]).T)
        R = rod(ROT[r])
        for n in range(3, 8):
            for s in itertools.permutations(range(7), 3) if n == 3 else itertools.combinations(range(7), n):
                s = list(s)
                got = pygeometry.relative_rotation_n_points(x[s], x[s] @ R.T)
                ck.ev()
                ck.outcome(("rotation", r, d, lay, tuple(s)))
                ck.expect(np.abs(got - R).max() < 1e-6, "n-point-rotation", "points %r (%s) turned by %r: %r instead of %r" % (s, lay, ROT[r], got, R))


def refine_(ck, r, d):
    R, t = rod(ROT[r]), DIR[d]
    for lay in LAYOUTS[:3]:
        x, y = views(R, t, cloud(lay, 30))
        for k in range(7):
            dR = rod(np.array([math.sin(k), math.cos(2 * k), math.sin(3 * k + 1)]) * 0.02 * (k > 0))
            dt = unit(t + 0.03 * np.array([math.cos(k), math.sin(2 * k), math.cos(3 * k)]) * (k > 0))
            for scale in (1.0, 3.0):
                R1, t1 = dR @ R, dt
                got = pygeometry.relative_pose_refinement(np.column_stack([R1, t1]), x * scale, y, 100)
                # the python function has the motion from the second camera to the first
                py = multiview.relative_pose_optimize_nonlinear(x * scale, y, -R1.T @ t1, R1.T, 100)
                ck.ev(2)
                ck.outcome(("refine", r, d, lay, k, scale))
                what = "motion %d %d (%s), start %d" % (r, d, lay, k)
                ck.expect(np.abs(got[:, :3] @ got[:, :3].T - np.eye(3)).max() < 1e-9 and np.linalg.det(got[:, :3]) > 0, "refinement-rotation", "%s: %r" % (what, got))
                if k == 0:
                    ck.expect(np.abs(got - np.column_stack([R, t])).max() < 1e-3, "refinement", "%s: %r instead of %r" % (what, got, np.column_stack([R, t])))
                ck.expect(square(x, y, got) <= square(x, y, np.column_stack([R1, t1])) * 1.5 + 1e-12, "refinement-worse", "%s: squares %r after %r" % (what, square(x, y, got), square(x, y, np.column_stack([R1, t1]))))
                ck.expect(np.abs(py[:, :3] - got[:, :3].T).max() < 5e-3 and np.abs(py[:, 3] + got[:, :3].T @ got[:, 3]).max() < 5e-3, "refinement-convention",
                          "%s: %r from python, %r" % (what, py, got))


def square(x, y, m):
    """sum of the squares of what the refinement reduces"""
    out = 0.0
    for a, b in zip(x, y):
        p = midpoint(a, b, m[:, :3], m[:, 3])
        out += 1.0 if p is None else (1 - (unit(p) @ a + unit(m[:, :3] @ p + m[:, 3]) @ b) / 2) ** 2
    return out


# ---- robust estimators: how to make samples, run, and evaluate a model


def make(model, n, k=0):
    """(samples, true model, errors(model) -> n errors, wrong(i) replaces sample i, threshold handed over, adapted threshold)"""
    R, t = rod(ROT[1 + k % 3]), DIR[k % len(DIR)]
    ang = lambda c: 1 - math.cos(c)
    if model == "line":
        x = np.array([0.5 + 0.7 * i + 0.1 * (i * i % 3) for i in range(n)])
        P = np.column_stack([x, 1.5 * x - 2])
        return [P], (1.5, -2), lambda m, P: np.abs(P[:, 1] - (m[0] * P[:, 0] + m[1])), lambda P, i: P[i].__setitem__(1, P[i][1] + (3 + i + 0.37 * i * i) * (-1) ** i), 0.01, 0.01
    if model == "similarity":
        X = cloud("space", n, k)
        Y = 2.0 * X @ R.T + t
        T = np.eye(4)
        T[:3, :3], T[:3, 3] = 2 * R, t
        return [X, Y], T, lambda m, X, Y: np.linalg.norm(Y - X @ np.asarray(m)[:3, :3].T - np.asarray(m)[:3, 3], axis=1), lambda X, Y, i: Y.__setitem__(i, Y[i] + [3 + i, -2 * i, 4]), 1e-3, 1e-3
    if model == "relative_rotation":
        x = unit(cloud("around", n, k))
        return [x, x @ R.T], R, lambda m, x, y: 1 - np.einsum("ij,ij->i", x @ np.asarray(m).T, y), lambda x, y, i: y.__setitem__(i, off(y[i], i)), 1e-3, ang(1e-3)
    if model == "absolute_pose":
        R, t, b, X = posed(1 + k % 3, k % len(DIR), "space", n, k)
        return ([b, X], np.column_stack([R, t]), lambda m, b, X: 1 - np.einsum("ij,ij->i", unit(b), unit(X @ np.asarray(m)[:, :3].T + np.asarray(m)[:, 3])),
                lambda b, X, i: b.__setitem__(i, off(b[i], i)), 1e-3, ang(1e-3))
    if model == "absolute_pose_known_rotation":
        R, t, b, X = posed(1 + k % 3, k % len(DIR), "space", n, k)
        return ([b, X @ R.T], t, lambda m, b, X: 1 - np.einsum("ij,ij->i", unit(b), unit(X + np.asarray(m).ravel())), lambda b, X, i: b.__setitem__(i, off(b[i], i)), 1e-3, ang(1e-3))
    x, y = views(R, t, cloud("space", n, k))
    if model == "relative_pose":
        def err(m, x, y):
            m = np.asarray(m)
            out = []
            for a, b in zip(x, y):
                p = midpoint(a, b, m[:, :3], m[:, 3])
                out.append(1.0 if p is None else 1 - (unit(p) @ a + unit(m[:, :3] @ p + m[:, 3]) @ b) / 2)
            return np.array(out)
        return [x, y], np.column_stack([R, t]), err, lambda x, y, i: y.__setitem__(i, off(y[i], i)), 1e-5, ang(1e-5)
    E = skew(t) @ R
    return ([x, y], E / np.linalg.norm(E), lambda m, x, y: np.abs(np.arcsin(np.einsum("ij,jk,ik->i", y, np.asarray(m), x))), lambda x, y, i: y.__setitem__(i, off(y[i], i)), 1e-6, 1e-6)


MODELS = {"line": 2, "similarity": 3, "relative_rotation": 3, "absolute_pose": 3, "absolute_pose_known_rotation": 2, "relative_pose": 5, "essential": 5}
TOL = {"line": 1e-9, "similarity": 1e-6, "relative_rotation": 1e-5, "absolute_pose": 8e-2, "absolute_pose_known_rotation": 2e-3, "relative_pose": 2e-2, "essential": 1e-3}


def same(model, got, want):
    got, want = np.asarray(got).reshape(np.shape(want)), np.asarray(want)
    if model == "essential":
        got = got / np.linalg.norm(got)
        return min(np.abs(got - want).max(), np.abs(got + want).max()) < TOL[model]
    return np.abs(got - want).max() < TOL[model]


def estimate(model, data, thr, kind, **opts):
    p = pyrobust.RobustEstimatorParams()
    for k, v in opts.items():
        setattr(p, k, v)
    return getattr(pyrobust, "ransac_" + model)(*data, thr, p, getattr(pyrobust.RansacType, kind))


def options(o, model):
    """without and with early end; the number of iterations makes a miss of the right model impossible in practice"""
    if o == 2:
        return {"iterations": 3000, "probability": 0.9999999}
    return {"iterations": 1500 if MODELS[model] == 5 else 200, "use_iteration_reduction": False, "use_local_optimization": o == 0}


def consistent(ck, res, model, err, data, thr, kind, what, n):
    """score and inliers are those of the model returned"""
    e = err(res.lo_model, *data)
    got = list(res.inliers_indices)
    lim = thr
    med = np.sort(e)[n // 2]
    if kind == "LMedS":
        lim = thr * 1.4826 * med
    ck.expect(got == sorted(set(got)) and all(0 <= i < n for i in got), "inlier-indices", "%s: inliers %r" % (what, got))
    eps = 1e-14 + 1e-6 * lim
    sure = {i for i in range(n) if e[i] < lim - eps}
    maybe = {i for i in range(n) if abs(e[i] - lim) <= eps}
    if kind != "LMedS" or lim > 1e-13:
        ck.expect(sure <= set(got) <= sure | maybe, "inliers", "%s: inliers %r for errors %r below %r" % (what, got, e, lim))
    if kind == "RANSAC":
        ck.expect(res.score == len(got), "score", "%s: score %r with %d inliers" % (what, res.score, len(got)))
    else:
        v = med if kind == "LMedS" else float(np.sum(np.minimum(e, lim) ** 2))
        want = 1 / (v + 1e-8)
        ck.expect(abs(res.score - want) < 1e-5 * want, "score", "%s: score %r instead of %r" % (what, res.score, want))


def ransac_(ck, model, kind, n):
    least = MODELS[model]
    most = min(n - least - (2 if least == 5 else 1), 4,  (n - 1) // 2 if kind == "LMedS" else n)
    masks = [c for k in range(most + 1) for c in itertools.combinations(range(n), k)]
    if least == 5:  # slower
        if kind == "LMedS":
            n += 5
            masks = [c for c in masks if len(c) < 3]
        masks = [c for j, c in enumerate(masks) if len(c) < 2 or (j % (9 if ck.quick else 2) == 0)]
    for j, wrong in enumerate(masks):
        data, truth, err, spoil, thr, lim = make(model, n, j % 5)
        for i in wrong:
            spoil(*data, i)
        right = [i for i in range(n) if i not in wrong]
        for o in range(3):
            opts = options(o, model)
            if len(wrong) > (1 if least < 5 else 0) and o != j % 3 or o == 0 and model == "absolute_pose" and j % 4 and ck.quick:
                continue
            res = estimate(model, data, thr, kind, **opts)
            ck.ev()
            ck.outcome((model, kind, n, wrong, o))
            what = "%s of %s, %d samples with wrong %r, options %r" % (kind, model, n, wrong, opts)
            ck.expect(np.isfinite(res.lo_model).all(), "finite", "%s: %r" % (what, res.lo_model))
            consistent(ck, res, model, err, data, lim, kind, what, n)
            ck.expect(same(model, res.lo_model, truth), "model", "%s: %r instead of %r" % (what, res.lo_model, truth))
            if kind != "LMedS":
                ck.expect(list(res.inliers_indices) == right, "right-samples", "%s: inliers %r" % (what, list(res.inliers_indices)))
            if not opts.get("use_local_optimization", True):
                ck.expect(np.array_equal(res.model, res.lo_model), "plain", "%s: %r and %r" % (what, res.model, res.lo_model))
            if j % 10 == 0:
                again = estimate(model, data, thr, kind, **opts)
                ck.expect(np.array_equal(again.lo_model, res.lo_model) and again.score == res.score and list(again.inliers_indices) == list(res.inliers_indices), "repeatable",
                          "%s: %r then %r" % (what, res.lo_model, again.lo_model))


def many_(ck, model):
    """larger sets: any share of wrong samples"""
    for n in (20, 60, 200):
        for share in (0, 10, 20, 30, 40, 50):
            if model in ("relative_pose", "essential") and share > 30:
                continue
            for k in range(5):
                data, truth, err, spoil, thr, lim = make(model, n, k)
                thr, lim = thr, lim
                wrong = [i for i in range(n) if (i * 37 + k * 11) % 100 < share]
                for i in wrong:
                    spoil(*data, i)
                for kind in ("RANSAC", "MSAC"):
                    res = estimate(model, data, thr, kind, iterations=1000, probability=0.999999)
                    ck.ev()
                    ck.outcome(("many", model, n, share, k, kind))
                    what = "%s of %s, %d samples, %d wrong (%d)" % (kind, model, n, len(wrong), k)
                    ck.expect(same(model, res.lo_model, truth), "model", "%s: %r instead of %r" % (what, res.lo_model, truth))
                    ck.expect(list(res.inliers_indices) == [i for i in range(n) if i not in wrong], "right-samples", "%s: %d inliers" % (what, len(res.inliers_indices)))
                    consistent(ck, res, model, err, data, lim, kind, what, n)


def few_(ck, model):
    """too few samples give no model, one more than the least gives it"""
    for n in range(0, MODELS[model] + 2):
        for kind in ("RANSAC", "MSAC", "LMedS"):
            data, truth, err, spoil, thr, lim = make(model, max(n, 1))
            data = [a[:n] for a in data]
            res = estimate(model, data, thr, kind, iterations=100)
            ck.ev()
            ck.outcome(("few", model, n, kind))
            if n < MODELS[model]:
                ck.expect(len(res.inliers_indices) == 0 and res.score == 0, "few", "%s of %d samples for %s: %r, inliers %r" % (kind, n, model, res.lo_model, list(res.inliers_indices)))
            elif n > MODELS[model] and kind == "RANSAC":
                ck.expect(list(res.inliers_indices) == list(range(n)), "few", "%s of %d samples for %s: inliers %r" % (kind, n, model, list(res.inliers_indices)))
    if model != "line":
        data = make(model, 8)[0]
        for a, b in ((8, 7), (5, 8), (8, 0)):
            ck.ev()
            try:
                estimate(model, [data[0][:a], data[1][:b]], 1e-3, "RANSAC")
                ck.fail("sizes", "%s of %d and %d samples accepted" % (model, a, b))
            except RuntimeError:
                pass


# ---- python


def wrappers_(ck, r, d):
    """the conventions of the python functions"""
    R, t = rod(ROT[r]), DIR[d]
    for lay in ("space", "around"):
        for wrong in [()] + list(itertools.combinations(range(14), 1)) + [c for j, c in enumerate(itertools.combinations(range(14), 3)) if j % (29 if ck.quick else 7) == 0]:
            x, y = views(R, t, cloud(lay, 14))
            for i in wrong:
                y[i] = off(y[i], i)
            what = "motion %d %d (%s) with wrong %r" % (r, d, lay, wrong)
            T = multiview.relative_pose_ransac(x, y, 1e-4, 1000, 0.999)
            ck.ev(4)
            ck.outcome(("wrappers", r, d, lay, wrong))
            ck.expect(np.abs(T[:, :3] - R.T).max() < 5e-3 and np.abs(T[:, 3] + R.T @ t).max() < 1e-2, "relative_pose_ransac", "%s: %r instead of %r" % (what, T, np.column_stack([R.T, -R.T @ t])))
            z = x @ R.T
            for i in wrong:
                z[i] = off(z[i], i)
            Q = multiview.relative_pose_ransac_rotation_only(x, z, 1e-3, 1000, 0.999)
            ck.expect(np.abs(Q - R.T).max() < 1e-5, "rotation_only", "%s: %r instead of %r" % (what, Q, R.T))
            A, c, b, X = posed(r, d, lay, 14)
            bw = b.copy()
            for i in wrong:
                bw[i] = off(b[i], i)
            P = multiview.absolute_pose_ransac(bw, X, 1e-3, 1000, 0.999)
            ck.expect(np.abs(P[:, :3] - A.T).max() < 5e-3 and np.abs(P[:, 3] + A.T @ c).max() < 2e-2, "absolute_pose_ransac", "%s: %r instead of %r" % (what, P, np.column_stack([A.T, -A.T @ c])))
            P = multiview.absolute_pose_known_rotation_ransac(bw, X @ A.T, 1e-3, 1000, 0.999)
            ck.expect(np.abs(P[:, :3] - np.eye(3)).max() == 0 and np.abs(P[:, 3] + c).max() < 5e-3, "absolute_pose_known_rotation_ransac", "%s: %r instead of %r" % (what, P, -c))


def homography_(ck, r, d):
    """motions explaining what a plane looks like from two places"""
    R, t = rod(ROT[r]), DIR[d]
    for normal in ((0, 0, 1), (0.3, -0.2, 1), (-1, 0.5, 1), (0, 0.9, 1)):
        n = unit(np.array(normal, float))
        for dist in (1.5, 4.0):
            for scale in (1.0, 0.01, -3.0, 70.0):
                # X on the plane n.X = dist: Y = R X + t = (R + t n^T / dist) X
                H = scale * (R + np.outer(t, n) / dist)
                l = np.linalg.svd(H)[1]
                got = multiview.motion_from_plane_homography(H)
                ck.ev()
                what = "motion %d %d, plane %r at %g, matrix times %g" % (r, d, normal, dist, scale)
                if l[0] / l[1] < 1.0001 or l[1] / l[2] < 1.0001:
                    ck.expect(got is None, "homography-degenerate", "%s: %r" % (what, got))
                    continue
                ck.outcome(("homography", r, d, normal, dist, scale))
                ck.expect(got is not None and len(got) == 8, "homography", "%s: %r" % (what, got))
                for A, tt, m, dd in got or []:
                    ck.expect(np.abs(A @ A.T - np.eye(3)).max() < 1e-8 and np.linalg.det(A) > 0, "homography-rotation", "%s: %r" % (what, A))
                    fit = dd * A - np.outer(tt, m)
                    ck.expect(np.abs(fit - H).max() < 1e-6 * abs(scale) or np.abs(fit + H).max() < 1e-6 * abs(scale), "homography-fit", "%s: %r instead of %r" % (what, fit, H))
                ok = [1 for A, tt, m, dd in got or [] if np.abs(A - R).max() < 1e-5 and np.abs(np.outer(tt, m) / dd + np.outer(t, n) / dist).max() < 1e-5]
                ck.expect(ok, "homography-motion", "%s: the motion is not among %r" % (what, [(A, tt / dd) for A, tt, m, dd in got or []]))


def matrices_(ck, r):
    R = rod(ROT[r])
    for K in ([[1, 2, 3], [0, 4, 5], [0, 0, 1]], [[0.8, 0, 0], [0, 0.8, 0], [0, 0, 1]], [[500, 0, 320], [0, 520, 240], [0, 0, 1]], [[2, -1, -3], [0, 0.5, 4], [0, 0, 1]]):
        for d in DIR:
            for s in (1, -1, 3.5, -0.02):
                P = s * multiview.P_from_KRt(np.array(K, float), R, d * 2)
                ck.ev()
                ck.outcome(("krt", r, str(K), tuple(d), s))
                ck.expect(np.allclose(P, s * np.array(K, float) @ np.column_stack([R, d * 2])), "P_from_KRt", "%r" % P)
                KK, RR, tt = multiview.KRt_from_P(P)
                ck.expect(np.allclose(KK, K, atol=1e-8 * np.abs(K).max()) and np.allclose(RR, R, atol=1e-8) and np.allclose(tt, d * 2, atol=1e-7), "KRt_from_P",
                          "%r gives %r %r %r instead of %r %r %r" % (P, KK, RR, tt, K, R, d * 2))
    for f in (0.3, 0.8, 1.0, 2.5):
        K = np.diag([f, f, 1])
        for s in (1, 3, 0.1):
            if np.linalg.norm(R - np.eye(3)) > 1e-3 and abs(R[2, 2]) < 0.999:
                H = K @ R @ np.linalg.inv(K)
                ck.ev()
                ck.expect(abs(multiview.focal_from_homography(s * H) - f) < 1e-6, "focal_from_homography", "%r instead of %r" % (multiview.focal_from_homography(s * H), f))
                for f2 in (0.5, 1.3):
                    H = np.diag([f2, f2, 1]) @ R @ np.linalg.inv(K)
                    ck.expect(np.abs(multiview.R_from_homography(s * H, f, f2) - R).max() < 1e-6, "R_from_homography", "%r instead of %r" % (multiview.R_from_homography(s * H, f, f2), R))
    for d in DIR:
        for e in DIR:
            for a, b in ((1, 1), (2, 0.3)):
                want = math.atan2(np.linalg.norm(np.cross(d, e)), d @ e)
                ck.ev()
                ck.expect(abs(multiview.vector_angle(a * d, b * e) - want) < 1e-7, "vector_angle", "%r and %r: %r instead of %r" % (d, e, multiview.vector_angle(a * d, b * e), want))
    for n in ((4, 3), (3, 4), (5, 6)):
        A = np.random.RandomState(n[0] + 10 * r).normal(size=n)
        A[-1] = A[0] - A[1] if n[0] >= n[1] else A[-1]
        s, v = multiview.nullspace(A if n[0] >= n[1] else A[:, :n[0]])
        M = A if n[0] >= n[1] else A[:, :n[0]]
        ck.ev()
        ck.expect(abs(np.linalg.norm(M @ v) - s) < 1e-9 and abs(s - np.linalg.svd(M)[1][-1]) < 1e-9 and abs(np.linalg.norm(v) - 1) < 1e-9, "nullspace", "%r: %r %r" % (M, s, v))
    X = cloud("space", 5, r)
    ck.ev()
    ck.expect(np.array_equal(multiview.homogeneous(X)[:, 3], np.ones(5)) and np.array_equal(multiview.homogeneous_vec(X)[:, 3], np.zeros(5)) and
              np.allclose(multiview.euclidean(multiview.homogeneous(X) * 2.5), X), "homogeneous", "%r" % X)
    for d in DIR:
        ck.expect(np.allclose(multiview.cross_product_matrix(d) @ X[0], np.cross(d, X[0])), "cross_product_matrix", "%r" % d)


def up_(ck, k):
    up = np.array([k % 3 - 1, k // 3 % 3 - 1, k // 9 - 1], float)
    if not up.any():
        return
    for angle in [x * 30.0 for x in range(-6, 7)] + [359.0, -123.4]:
        for s in (1.0, 9.8):
            R = multiview.rotation_matrix_from_up_vector_and_compass(list(s * up), angle)
            ck.ev()
            ck.outcome(("up", k, angle, s))
            what = "up %r, compass %g" % (up, angle)
            ck.expect(np.allclose(R @ R.T, np.eye(3), atol=1e-12) and np.linalg.det(R) > 0, "up-rotation", "%s: %r" % (what, R))
            ck.expect(np.allclose(multiview.camera_up_vector(R), unit(up), atol=1e-9) and np.allclose(R[:, 2], unit(up), atol=1e-9), "up-vector", "%s: %r" % (what, R))
            if abs(unit(up)[2]) < 0.99:
                d = (multiview.camera_compass_angle(R) - angle + 180) % 360 - 180
                ck.expect(abs(d) < 1e-6, "compass", "%s: %r" % (what, multiview.camera_compass_angle(R)))
                z = R[2]  # viewing direction in the world, from north clockwise
                ck.expect(abs((math.degrees(math.atan2(z[0], z[1])) - angle + 180) % 360 - 180) < 1e-6, "compass", "%s: looks to %r" % (what, z))


def similarity_(ck, n):
    for k in range(4):
        for wrong in [c for m in range(0, n - 4 + 1) for c in itertools.combinations(range(n), m)]:
            data, T, err, spoil, thr, _ = make("similarity", n, k)
            for i in wrong:
                spoil(*data, i)
            np.random.seed(7)
            M, inl = multiview.fit_similarity_transform(data[0], data[1], max_iterations=150, threshold=1e-3)
            ck.ev()
            ck.outcome(("fit", n, k, wrong))
            right = [i for i in range(n) if i not in wrong]
            ck.expect(sorted(int(i) for i in inl) == right, "fit-inliers", "%d points with wrong %r: inliers %r" % (n, wrong, inl))
            ck.expect(np.abs(np.asarray(M) - T).max() < 1e-6, "fit-similarity", "%d points with wrong %r: %r instead of %r" % (n, wrong, M, T))


# ---- two views


KINDS = ["perspective", "fisheye", "brown", "spherical"]


def pair_(ck, a, b, lay):
    """two_view_reconstruction_general on all places of wrong matches"""
    if "spherical" in (a, b) and lay == "plane":
        return
    cams = [bascene.camera(a, "c1"), bascene.camera(b, "c2")]
    n = 14
    for r in (1, 2):
        for d in range(len(DIR)):
            R, t = rod(ROT[r] if r < 2 else (-0.1, 0.15, 0.1)), DIR[d]
            if lay == "plane" and abs(DIR[d][2]) == 1 and r == 1:
                continue
            masks = [()] + [(i,) for i in range(n)] + [c for j, c in enumerate(itertools.combinations(range(n), 2)) if j % (13 if ck.quick else 3) == d % 3]
            X = cloud(lay, n, 2)
            p1 = np.array([cams[0].project(v) for v in X])
            p2 = np.array([cams[1].project(R @ v + t) for v in X])
            for wrong in masks:
                q2 = p2.copy()
                for i in wrong:
                    h = 2.39996 * (i + 1)
                    q2[i] += (0.2 + 0.02 * i) * np.array([math.cos(h), math.sin(h)]) * (0.4 if b == "spherical" else 1)
                got = orec.two_view_reconstruction_general(p1, q2, cams[0], cams[1], 0.001, 100)
                Rg, tg, inl, rep = got
                ck.ev()
                ck.outcome(("pair", a, b, lay, r, d, wrong))
                what = "%s and %s, motion %d %d (%s), wrong %r" % (a, b, r, d, lay, wrong)
                if Rg is None:
                    ck.fail("pair", "%s: no motion, %r" % (what, rep))
                    continue
                G = rod(np.asarray(Rg))
                if lay == "plane":  # several motions may explain a plane
                    ck.expect(len(inl) >= n - len(wrong), "pair-inliers", "%s: inliers %r" % (what, inl))
                else:
                    ck.expect(np.abs(G - R).max() < (5e-2 if wrong else 1e-2) and np.abs(unit(np.asarray(tg)) - t).max() < (0.1 if wrong else 2e-2), "pair-motion", "%s: %r %r instead of %r %r" % (what, G, tg, R, t))
                    # a wrong match may happen to lie on its epipolar line, or take a right one's place
                    luck = {i for i in wrong if agrees(cams[0].pixel_bearing(p1[i]), cams[1].pixel_bearing(q2[i]), R, t, 0.02)}
                    ck.expect(len(inl) >= n - len(wrong) - 1 and len(({int(i) for i in inl} - luck) ^ (set(range(n)) - set(wrong))) <= (2 if wrong else 0), "pair-inliers", "%s: inliers %r" % (what, inl))
                ck.expect(max(rep["5_point_inliers"], rep["plane_based_inliers"]) == len(inl) and rep["method"] == ("5_point" if rep["5_point_inliers"] > rep["plane_based_inliers"] else "plane_based"),
                          "pair-report", "%s: %r with %d inliers" % (what, rep, len(inl)))
                b1, b2 = cams[0].pixel_bearing_many(p1), cams[1].pixel_bearing_many(q2)
                again = [i for i in range(n) if agrees(b1[i], b2[i], G, np.asarray(tg), 0.001)]
                near = [i for i in range(n) if agrees(b1[i], b2[i], G, np.asarray(tg), 0.00101) != agrees(b1[i], b2[i], G, np.asarray(tg), 0.00099)]
                ck.expect(set(again) - set(near) <= set(int(i) for i in inl) <= set(again) | set(near), "pair-agree", "%s: inliers %r, but %r agree" % (what, inl, again))


def agrees(x, y, R, t, thr):
    p = midpoint(x, y, R, t)
    return p is not None and np.linalg.norm(unit(p) - x) < thr and np.linalg.norm(unit(R @ p + t) - y) < thr


def turn_(ck, a, b):
    cams = [bascene.camera(a, "c1"), bascene.camera(b, "c2")]
    n = 9
    for r in (0, 1, 2):
        R = rod((0.1, -0.15, 0.2) if r == 2 else ROT[r])
        for k in range(0, 5):
            for wrong in itertools.combinations(range(n), k):
                X = cloud("space", n, 3)
                p1 = np.array([cams[0].project(v) for v in X])
                p2 = np.array([cams[1].project(R @ v) for v in X])
                for i in wrong:
                    h = 2.39996 * (i + 1)
                    p2[i] += (0.2 + 0.02 * i) * np.array([math.cos(h), math.sin(h)]) * (0.4 if b == "spherical" else 1)
                Rg, inl = orec.two_view_reconstruction_rotation_only(p1, p2, cams[0], cams[1], 0.004)
                ck.ev()
                ck.outcome(("turn", a, b, r, wrong))
                what = "%s and %s turned by %d, wrong %r" % (a, b, r, wrong)
                ck.expect(np.abs(rod(Rg) - R).max() < 1e-4, "turn", "%s: %r instead of %r" % (what, rod(Rg), R))
                ck.expect(list(inl) == [i for i in range(n) if i not in wrong], "turn-inliers", "%s: inliers %r" % (what, inl))


def reversal_(ck, r, d):
    """of a motion and its reversal, that with more matches, or none if they are alike"""
    R, t = rod(np.array(ROT[r]) * 0.3), DIR[d]
    for lay, depth in (("space", 1), ("deep", 1), ("space", 40), ("space", 400)):
        X = cloud(lay, 16, 4)
        if depth > 1:
            X = (X - [0, 0, 5]) + [0, 0, 5 * depth]
        x, y = views(R, t, X)
        for wrong in ((), (3,), (1, 5, 9), tuple(range(0, 16, 2))):
            yy = y.copy()
            for i in wrong:
                yy[i] = off(y[i], i)
            for (A, c) in ((R.T, -R.T @ t), (R, t)):
                both = [orec.two_view_reconstruction_and_refinement(x, yy, A, c, 0.003, 50, tr) for tr in (False, True)]
                n = [len(q[2]) for q in both]
                for q in both:
                    G, tg = rod(np.asarray(q[0])), np.asarray(q[1])
                    again = [i for i in range(16) if agrees(x[i], yy[i], G, tg, 0.003)]
                    near = {i for i in range(16) if agrees(x[i], yy[i], G, tg, 0.00301) != agrees(x[i], yy[i], G, tg, 0.00299)}
                    ck.expect(set(again) - near <= {int(i) for i in q[2]} <= set(again) | near, "refined-inliers", "motion %d %d (%s %d) wrong %r: %r, but %r agree" % (r, d, lay, depth, wrong, q[2], again))
                for ratio in (0.5, 0.95, 1.0):
                    for reverse in (False, True):
                        Rg, tg, inl = orec.two_view_reconstruction_5pt(x, yy, A, c, 0.003, 50, reverse, ratio)
                        ck.ev()
                        ck.outcome(("reversal", r, d, lay, depth, wrong, A is R, ratio, reverse))
                        ok = [k for k in ((0, 1) if reverse else (0,)) if n[k] > 5]
                        if len(ok) == 2 and min(n) / max(n) > ratio:
                            ok = []
                        want = max(ok, key=lambda k: n[k]) if ok else None
                        what = "motion %d %d (%s %d) with wrong %r, %r matches, reversal %r at %g" % (r, d, lay, depth, wrong, n, reverse, ratio)
                        ck.expect((Rg is None) == (want is None) and len(inl) == (0 if want is None else n[want]), "reversal", "%s: %r with %d matches" % (what, Rg, len(inl)))
                        if want is not None and len(ok) == 2 and n[0] == n[1]:
                            continue
                        ck.expect(want is None or (np.allclose(Rg, both[want][0]) and np.allclose(tg, both[want][1])), "reversal-motion", "%s: %r %r" % (what, Rg, tg))
