"""C13: every camera model projects by its documented formula, and bearings invert projections."""
import copy
import itertools
import math
import pickle

import numpy as np
from opensfm import pygeometry

C = pygeometry.Camera
LEVEL = "exploration"
RULE = ("all ten camera models x grids of their parameters x grids of directions (behind the camera and at the poles where "
        "the model allows): projection against the written-out formula, invariance to depth, bearings as unit-norm inverse "
        "wherever the distortion is monotone, many = one by one, K matrices, parameter access, copies, pickles and camera "
        "mappings; non-trivial: distinct (camera, direction) projections")
ASSUMPTIONS = ["bearings are asked for where the slope of the distortion is at least 0.2 (0.4 for the fisheye models) from the axis out to the distorted radius, and which changes the radius by less than a factor 1.6"]
NK = {"perspective": 2, "fisheye": 2, "dual": 2, "brown": 5, "fisheye_opencv": 4, "fisheye62": 8, "fisheye624": 12, "radial": 2,
      "simple_radial": 1, "spherical": 0}
AFFINE = {"brown", "fisheye_opencv", "fisheye62", "fisheye624", "radial", "simple_radial"}
LIMIT = {t: 0.4 if t.startswith("fisheye") else 0.2 for t in NK}
NAMES = {"perspective": ["k1", "k2"], "fisheye": ["k1", "k2"], "dual": ["k1", "k2"], "brown": ["k1", "k2", "k3", "p1", "p2"],
         "fisheye_opencv": ["k1", "k2", "k3", "k4"], "fisheye62": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"],
         "fisheye624": ["k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3"], "radial": ["k1", "k2"],
         "simple_radial": ["k1"], "spherical": []}


def make(t, f, ar, pp, k, tr):
    if t == "perspective":
        return C.create_perspective(f, k[0], k[1])
    if t == "fisheye":
        return C.create_fisheye(f, k[0], k[1])
    if t == "dual":
        return C.create_dual(tr, f, k[0], k[1])
    if t == "spherical":
        return C.create_spherical()
    if t == "simple_radial":
        return C.create_simple_radial(f, ar, np.array(pp), k[0])
    return getattr(C, "create_" + t)(f, ar, np.array(pp), np.array(k, dtype=float))


def plane(t, X, tr):
    x, y, z = X
    r = math.hypot(x, y)
    fish = (x / z, y / z) if r < 1e-8 else (math.atan2(r, z) / r * x, math.atan2(r, z) / r * y)
    if t.startswith("fisheye"):
        return fish
    if t == "dual":
        return tuple(tr * a / z + (1 - tr) * b for a, b in zip((x, y), fish))
    return x / z, y / z


def distort(t, u, v, k):
    r2 = u * u + v * v
    n = {"brown": 3, "fisheye62": 6, "fisheye624": 6}.get(t, len(k))
    d = 1.0
    p = 1.0
    for i in range(n):
        p *= r2
        d += k[i] * p
    x, y = u * d, v * d
    if t in ("brown", "fisheye62", "fisheye624"):
        p1, p2 = k[n], k[n + 1]
        x += 2 * p1 * u * v + p2 * (r2 + 2 * u * u)
        y += 2 * p2 * u * v + p1 * (r2 + 2 * v * v)
    if t == "fisheye624":
        s = k[8:]
        x += s[0] * r2 + s[1] * r2 * r2
        y += s[2] * r2 + s[3] * r2 * r2
    return x, y


def project(t, f, ar, pp, k, tr, X):
    if t == "spherical":
        x, y, z = X
        return math.atan2(x, z) / (2 * math.pi), math.atan2(y, math.hypot(x, z)) / (2 * math.pi)
    u, v = distort(t, *plane(t, X, tr), k)
    if t in AFFINE:
        return f * u + pp[0], f * ar * v + pp[1]
    return f * u, f * v


def slope(t, k, tr, X):
    """smallest singular value of the distortion's jacobian on the way from the axis to X"""
    if t == "spherical":
        return 1.0
    u, v = plane(t, X, tr)
    worst, h = 9.0, 1e-6
    if not k:
        return 1.0
    out = distort(t, u, v, k)
    if not 0.55 < (math.hypot(*out) + 1e-12) / (math.hypot(u, v) + 1e-12) < 1.6:
        return 0.0
    far = max(1.05, math.hypot(*out) / max(math.hypot(u, v), 1e-9))
    for s in np.linspace(0.02, min(far, 3.0), 14):
        a, b = u * s, v * s
        x0, x1 = distort(t, a - h, b, k), distort(t, a + h, b, k)
        y0, y1 = distort(t, a, b - h, k), distort(t, a, b + h, k)
        J = [[(x1[0] - x0[0]) / (2 * h), (y1[0] - y0[0]) / (2 * h)], [(x1[1] - x0[1]) / (2 * h), (y1[1] - y0[1]) / (2 * h)]]
        det = J[0][0] * J[1][1] - J[0][1] * J[1][0]
        n = math.sqrt(sum(c * c for row in J for c in row))
        worst = min(worst, det / max(n, 1e-9))
    return worst


def params(t, quick):
    """all parameter combinations of a model"""
    fs = [0.6, 1.7] if quick else [0.5, 0.9, 1.7]
    ars = [1.0, 1.05] if t in AFFINE else [1.0]
    pps = [(0.0, 0.0), (0.03, -0.02)] if t in AFFINE else [(0.0, 0.0)]
    trs = [0.0, 0.3, 0.7, 1.0] if t == "dual" else [0.5]
    n = NK[t]
    if t == "spherical":
        return [(1.0, 1.0, (0.0, 0.0), (), 0.5)]
    mags = {"k1": [-0.25, 0.15], "k2": [0.08, -0.05], "k3": [-0.02, 0.03], "k4": [0.01, -0.008], "k5": [-0.006, 0.004], "k6": [0.003, -0.002],
            "p1": [0.006, -0.01], "p2": [-0.007, 0.004], "s0": [0.004, -0.006], "s1": [-0.003, 0.002], "s2": [-0.005, 0.003], "s3": [0.002, -0.004]}
    names = NAMES[t]
    ks = [tuple([0.0] * n)]
    for i in range(n):
        for m in mags[names[i]]:
            ks.append(tuple(m if j == i else 0.0 for j in range(n)))
    for i, j in itertools.combinations(range(n), 2):
        if quick and n > 5 and j - i > 1:
            continue
        ks.append(tuple(mags[names[q]][0] if q in (i, j) else 0.0 for q in range(n)))
    for s in ((0, 1) if quick else itertools.product((0, 1), repeat=min(n, 4))):
        s = (s,) * n if isinstance(s, int) else s
        ks.append(tuple(mags[names[q]][s[q % len(s)]] for q in range(n)))
    return [(f, ar, pp, k, tr) for f in fs for ar in ars for pp in pps for k in ks for tr in trs]


def directions(t, quick):
    amax = {"perspective": 55, "brown": 55, "radial": 55, "simple_radial": 55, "dual": 80, "spherical": 180}.get(t, 85)
    n = 7 if quick else 13
    out = [(0.0, 0.0, 1.0)]
    for th in np.linspace(0, amax, n)[1:]:
        for ph in (0, 35, 90, 150, 180, 225, 270, 300) if quick else range(0, 360, 15):
            a, b = math.radians(th), math.radians(ph)
            out.append((math.sin(a) * math.cos(b), math.sin(a) * math.sin(b), math.cos(a)))
    out.append((1e-9, -2e-9, 1.0))
    out.append((1e-5, 2e-5, 1.0))
    return out


def cases(ck):
    out = []
    for t in NK:
        ps = params(t, ck.quick)
        step = 12
        for i in range(0, len(ps), step):
            out.append([t, i, i + step])
    out += [["access", i] for i in range(len(NK))] + [["mapping", i] for i in range(4)]
    return out


def check(ck, case):
    if case[0] == "access":
        return access(ck, list(NK)[case[1]])
    if case[0] == "mapping":
        return mapping(ck, case[1])
    t, a, b = case
    dirs = directions(t, ck.quick)
    for f, ar, pp, k, tr in params(t, ck.quick)[a:b]:
        cam = make(t, f, ar, pp, k, tr)
        what = "%s focal %g aspect %g center %r distortion %r transition %g" % (t, f, ar, pp, k, tr)
        pts = np.array([[s * c for c in X] for X in dirs for s in (1.0, 3.7)])
        many = cam.project_many(pts)
        pix, back = [], []
        for X, got, far in zip(dirs, many[::2], many[1::2]):
            want = project(t, f, ar, pp, k, tr, X)
            ck.ev()
            single = cam.project(np.array(X))
            if t == "spherical" and abs(abs(X[0]) + abs(X[2])) < 1e-12:
                continue
            tol = 1e-9
            wrap = (lambda d: min(abs(d), abs(abs(d) - 1))) if t == "spherical" else abs
            ck.expect(wrap(got[0] - want[0]) < tol and abs(got[1] - want[1]) < tol, "project:" + t, "%s: %r is projected to %r instead of %r" % (what, X, got, want))
            ck.expect(np.allclose(single, got, atol=1e-12), "project-one:" + t, "%s: %r projected alone to %r, with others to %r" % (what, X, single, got))
            ck.expect(wrap(got[0] - far[0]) < 1e-9 and abs(got[1] - far[1]) < 1e-9, "depth:" + t, "%s: the projection of %r depends on its depth: %r, %r" % (what, X, got, far))
            ck.outcome((t, f, k, round(want[0], 6), round(want[1], 6)))
            if slope(t, k, tr, X) > LIMIT[t]:
                pix.append(want)
                back.append(X)
        pix = np.array(pix).reshape(-1, 2)
        bs = cam.pixel_bearing_many(pix)
        for p, X, b_ in zip(pix, back, bs):
            one = cam.pixel_bearing(p)
            ck.ev()
            ck.expect(np.allclose(one, b_, atol=1e-12), "bearing-one:" + t, "%s: bearing of %r alone %r, with others %r" % (what, p, one, b_))
            ck.expect(abs(np.linalg.norm(b_) - 1) < 1e-9, "unit:" + t, "%s: bearing of %r has norm %r" % (what, p, np.linalg.norm(b_)))
            ang = math.atan2(np.linalg.norm(np.cross(X, b_)), np.dot(X, b_))
            ck.expect(ang < 1e-5, "bearing:" + t, "%s: the bearing of the projection of %r is %r, %g rad away" % (what, X, b_, ang))
        K = cam.get_K()
        wantK = np.array([[f, 0, pp[0]], [0, f * ar, pp[1]], [0, 0, 1]]) if t != "spherical" else np.eye(3)
        ck.expect(np.allclose(K, wantK, atol=1e-12), "K:" + t, "%s: K = %r" % (what, K))
        for w, h in ((640, 480), (480, 640), (100, 100)):
            S = cam.get_K_in_pixel_coordinates(w, h)
            m = max(w, h)
            wantS = np.array([[m * wantK[0, 0], 0, m * wantK[0, 2] + 0.5 * w], [0, m * wantK[1, 1], m * wantK[1, 2] + 0.5 * h], [0, 0, 1]])
            ck.expect(np.allclose(S, wantS, atol=1e-9), "Kpx:" + t, "%s: K in pixels of %dx%d = %r" % (what, w, h, S))
    ck.sample({"model": t, "params": [f, ar, pp, list(k), tr]})


def access(ck, t):
    """parameters: what is set is what is read, by every way of reading and after copying"""
    P = pygeometry.CameraParameters
    f, ar, pp, k, tr = params(t, True)[-1]
    k = tuple(0.01 * (i + 1) for i in range(NK[t]))
    cam = make(t, f, ar, pp, k, tr)
    cam.id, cam.width, cam.height = "the id", 640, 480

    def state(c):
        return (c.projection_type, c.id, c.width, c.height, list(c.get_parameters_types()), [float(x) for x in c.get_parameters_values()],
                {q: v for q, v in c.get_parameters_map().items()})
    s0 = state(cam)
    for how, c in (("copy", copy.copy(cam)), ("deepcopy", copy.deepcopy(cam)), ("pickle", pickle.loads(pickle.dumps(cam)))):
        ck.ev()
        ck.expect(state(c) == s0, "copy", "%s of a %s camera: %r instead of %r" % (how, t, state(c), s0))
        if t != "spherical":
            c.focal = 3.25
            ck.expect(cam.focal == f, "copy-shared", "setting the focal of a %s of a %s camera changes the original" % (how, t))
    ck.expect(cam.projection_type == t, "type", "%s camera says it is %s" % (t, cam.projection_type))
    ck.expect(C.is_panorama(t) == (t == "spherical") and C.is_panorama("equirectangular"), "panorama", t)
    attrs = {n: v for n, v in zip(NAMES[t], k)}
    if t != "spherical":
        attrs["focal"] = f
        ck.expect(list(cam.distortion) == list(k), "distortion", "%s: distortion %r reads %r" % (t, k, list(cam.distortion)))
        new = np.array([0.001 * (i + 3) for i in range(NK[t])])
        cam.distortion = new
        attrs.update(zip(NAMES[t], new))
        ck.expect(list(cam.distortion) == list(new), "distortion", "%s: distortion set to %r reads %r" % (t, new, list(cam.distortion)))
    if t in AFFINE:
        attrs["aspect_ratio"] = ar
        ck.expect(list(cam.principal_point) == list(pp), "principal", "%s: principal point %r" % (t, cam.principal_point))
        cam.principal_point = np.array([0.25, -0.5])
        attrs["cx"], attrs["cy"] = 0.25, -0.5
        ck.expect(list(cam.principal_point) == [0.25, -0.5], "principal", "%s: principal point %r" % (t, cam.principal_point))
    if t == "dual":
        attrs["transition"] = tr
    names = ["focal", "aspect_ratio", "k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3", "cx", "cy", "transition"]
    for step in range(2):
        m = cam.get_parameters_map()
        got = {n: m[getattr(P, n)] for n in names if getattr(P, n) in m}
        ck.expect(got == attrs, "map", "%s: parameters %r instead of %r" % (t, got, attrs))
        for n in names:
            ck.ev()
            if n in ("cx", "cy"):
                pass
            elif n in attrs:
                v = getattr(cam, n)
                ck.expect(v == attrs[n], "attribute", "%s.%s = %r instead of %r" % (t, n, v, attrs[n]))
            else:
                try:
                    getattr(cam, n)
                    ck.fail("attribute", "%s has a %s" % (t, n))
                except RuntimeError:
                    pass
            if n in attrs:
                attrs[n] += 0.125
                cam.set_parameter_value(getattr(P, n), attrs[n])
            else:
                try:
                    cam.set_parameter_value(getattr(P, n), 1.0)
                    ck.fail("set", "%s accepts a %s" % (t, n))
                except RuntimeError:
                    pass
            ck.outcome((t, n, step))
    if t in ("brown", "fisheye_opencv", "fisheye62", "fisheye624"):
        for n in (0, NK[t] - 1, NK[t] + 1):
            try:
                getattr(C, "create_" + t)(f, ar, np.array(pp), np.zeros(n))
                ck.fail("size", "%s accepts %d distortion coefficients" % (t, n))
            except RuntimeError:
                pass
    vals = np.array([0.5 + 0.01 * i for i in range(len(cam.get_parameters_values()))])
    cam.set_parameters_values(vals)
    ck.expect(np.array_equal(cam.get_parameters_values(), vals), "values", "%s: values set to %r read %r" % (t, vals, cam.get_parameters_values()))


def mapping(ck, i):
    """the map used to undistort: pixel (u, v) of the target looks where the source sees the same direction"""
    src = [("brown", 0.9, 1.02, (0.01, -0.02), (-0.1, 0.02, 0.0, 0.001, -0.001), 0.5), ("fisheye", 0.5, 1.0, (0, 0), (0.02, -0.01), 0.5),
           ("perspective", 0.8, 1.0, (0, 0), (-0.1, 0.01), 0.5), ("spherical", 1.0, 1.0, (0, 0), (), 0.5)][i]
    frm = make(*src)
    for (w, h), tf in itertools.product([(8, 6), (6, 8), (7, 7)], (0.7, 1.1)):
        to = C.create_perspective(tf, 0.0, 0.0)
        mu, mv = pygeometry.compute_camera_mapping(frm, to, w, h)
        m = max(w, h)
        ck.expect(mu.shape == (h, w) and mv.shape == (h, w), "mapping-shape", "%dx%d: %r" % (w, h, mu.shape))
        for v in range(h):
            for u in range(w):
                X = ((u - (w - 1) / 2) / m / tf, (v - (h - 1) / 2) / m / tf, 1.0)
                p = project(src[0], src[1], src[2], src[3], src[4], src[5], X)
                ck.ev()
                ck.expect(abs(mu[v, u] - (p[0] * m + (w - 1) / 2)) < 1e-3 and abs(mv[v, u] - (p[1] * m + (h - 1) / 2)) < 1e-3, "mapping",
                          "%s %dx%d at (%d, %d): (%g, %g) instead of %r" % (src[0], w, h, u, v, mu[v, u], mv[v, u], (p[0] * m + (w - 1) / 2, p[1] * m + (h - 1) / 2)))
        ck.outcome((i, w, h, tf))
