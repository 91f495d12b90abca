"""C17: camera angles and rotation matrices convert into each other, with the documented axes."""
import itertools
import math

import numpy as np
from opensfm import geometry

LEVEL = "exploration"
RULE = ("all triples of angles on a grid over their full ranges, with values next to the singularities and to half turns, for "
        "pan/tilt/roll, its second version and omega/phi/kappa; non-trivial: distinct triples")
ASSUMPTIONS = ["the middle angle is at least 0.001 rad from its singularity"]
s, c = math.sin, math.cos


def full(n):
    return [2 * math.pi * i / n - math.pi for i in range(n)] + [math.pi - 1e-6, 1e-7]


def cases(ck):
    n = 16 if ck.quick else 36
    return [[f, i, n] for f in ("ptr", "v2", "opk") for i in range(len(full(n)))] + [["axis", i, n] for i in range(8)]


def check(ck, case):
    globals()[case[0]](ck, case[1], case[2])


def mid(n):
    return [math.pi * i / n - math.pi / 2 for i in range(1, n)] + [math.pi / 2 - 1e-3, 1e-3 - math.pi / 2, 1e-7]


def adiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def rot(axis, a):
    m = np.eye(3)
    i, j = [(1, 2), (2, 0), (0, 1)][axis]
    m[i, i] = m[j, j] = c(a)
    m[i, j], m[j, i] = -s(a), s(a)
    return m


def matrix(ck, got, want, key, what):
    ck.ev()
    ck.expect(got.shape == (3, 3) and np.allclose(got, want, atol=1e-9), key, "%s is\n%r instead of\n%r" % (what, got, want))


def back(ck, f, R, want, g, key, what, names):
    got = [float(v) for v in f(R)]
    ck.ev()
    for n, x, y in zip(names, got, want):
        ck.expect(adiff(x, y) < 1e-5, key + ":" + n, "%s: %r instead of %r" % (what, got, want))
    ck.expect(np.allclose(g(*got), R, atol=1e-6), key + ":again", "%s: the angles %r make another rotation" % (what, got))


def ptr(ck, i, n):
    pan = full(n)[i]
    for tilt, roll in itertools.product(mid(n), full(n)):
        fwd = np.array([s(pan) * c(tilt), c(pan) * c(tilt), -s(tilt)])
        right = np.array([c(pan), -s(pan), 0])
        down = np.cross(fwd, right)
        want = np.array([c(roll) * right - s(roll) * down, s(roll) * right + c(roll) * down, fwd])
        R = geometry.rotation_from_ptr(pan, tilt, roll)
        what = "pan %g tilt %g roll %g" % (pan, tilt, roll)
        matrix(ck, R, want, "rotation_from_ptr", what)
        back(ck, geometry.ptr_from_rotation, want, (pan, tilt, roll), geometry.rotation_from_ptr, "ptr_from_rotation", what, ("pan", "tilt", "roll"))
        for f, v in ((geometry.pan_from_rotation, pan), (geometry.tilt_from_rotation, tilt), (geometry.roll_from_rotation, roll)):
            ck.expect(adiff(float(f(want)), v) < 1e-5, f.__name__, "%s: %s is %r" % (what, f.__name__, f(want)))
        ck.outcome((pan, tilt, roll))


def v2(ck, i, n):
    pan = full(n)[i]
    for tilt, roll in itertools.product(mid(n), full(n)):
        want = rot(2, roll) @ rot(0, tilt + math.pi / 2) @ rot(2, pan)
        R = geometry.rotation_from_ptr_v2(pan, tilt, roll)
        what = "pan %g tilt %g roll %g (v2)" % (pan, tilt, roll)
        matrix(ck, R, want, "rotation_from_ptr_v2", what)
        back(ck, geometry.ptr_from_rotation_v2, want, (pan, tilt, roll), geometry.rotation_from_ptr_v2, "ptr_from_rotation_v2", what, ("pan", "tilt", "roll"))
        ck.outcome(("v2", pan, tilt, roll))


def opk(ck, i, n):
    o = full(n)[i]
    for p, k in itertools.product(mid(n), full(n)):
        M = np.array([[c(p) * c(k), c(o) * s(k) + s(o) * s(p) * c(k), s(o) * s(k) - c(o) * s(p) * c(k)],
                      [-c(p) * s(k), c(o) * c(k) - s(o) * s(p) * s(k), s(o) * c(k) + c(o) * s(p) * s(k)],
                      [s(p), -s(o) * c(p), c(o) * c(p)]])
        want = np.diag([1.0, -1, -1]) @ M
        what = "omega %g phi %g kappa %g" % (o, p, k)
        matrix(ck, geometry.rotation_from_opk(o, p, k), want, "rotation_from_opk", what)
        back(ck, geometry.opk_from_rotation, want, (o, p, k), geometry.rotation_from_opk, "opk_from_rotation", what, ("omega", "phi", "kappa"))
        ck.outcome(("opk", o, p, k))


def axis(ck, i, n):
    a = math.pi * i / 7
    for u in itertools.product((-1, 0, 1), repeat=3):
        if u == (0, 0, 0):
            continue
        k = np.array(u) / np.linalg.norm(u)
        K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
        want = np.eye(3) + s(a) * K + (1 - c(a)) * K @ K
        for v in (k * a, list(k * a), tuple(k * a)):
            matrix(ck, geometry.rotation_from_angle_axis(v), want, "angle_axis", "axis %r angle %g" % (u, a))
        ck.outcome(("axis", u, a))
