"""C16: geographic conversions agree with WGS84, invert each other, and the Python and C++ versions agree."""
import itertools
import math

import numpy as np
from opensfm import geo, pygeo

LEVEL = "exploration"
RULE = ("all (reference, position) pairs of grids of latitudes, longitudes and altitudes with poles, the equator, the antimeridian and "
        "their neighbourhoods; non-trivial: distinct (latitude, longitude, altitude, reference) conversions")
ASSUMPTIONS = ["altitudes within +-50 km of the ellipsoid"]
LATS = [-90, -89.99999, -89.9, -60, -33.3, -1e-6, 0, 1e-6, 12.5, 45, 47.123456, 75, 89.9, 89.99999, 90]
LONS = [-180, -179.99999, -123.4, -90, -1e-6, 0, 1e-6, 8.5, 90, 135.25, 179.99999, 180]
ALTS = [-400, 0, 0.001, 300, 8848, 12000, 50000]
a, b = 6378137.0, 6356752.314245
e2 = 1 - (b / a) ** 2


def ecef(lat, lon, alt):
    la, lo = math.radians(lat), math.radians(lon)
    N = a / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return np.array([(N + alt) * math.cos(la) * math.cos(lo), (N + alt) * math.cos(la) * math.sin(lo), (N * (1 - e2) + alt) * math.sin(la)])


def frame(lat, lon):
    la, lo = math.radians(lat), math.radians(lon)
    E = [-math.sin(lo), math.cos(lo), 0]
    N = [-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)]
    U = [math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)]
    return np.array([E, N, U])


REFS = [(47.0, 8.5, 300), (0, 0, 0), (-33.3, 179.9999, 20), (89.9999, 10, 0), (-90, 0, 100), (60, -180, 1000), (-0.1, -90, -50)]


def cases(ck):
    return [["pos", i] for i in range(len(LATS))] + [["topo", i] for i in range(len(REFS))] + [["dist", i] for i in range(len(LATS))] + [["arrays", 0]]


def check(ck, case):
    globals()[case[0]](ck, case[1])


def lla_err(got, lat, lon, alt):
    """how far apart the positions are, in metres; and the differences of the fields themselves"""
    return float(np.linalg.norm(ecef(*got) - ecef(lat, lon, alt)))


def ok_lla(ck, got, lat, lon, alt, key, what):
    got = [float(v) for v in got]
    d = lla_err(got, lat, lon, alt)
    dlon = abs((got[1] - lon + 180) % 360 - 180) * math.cos(math.radians(lat))
    ok = d < 1e-3 and abs(got[0] - lat) < 1e-8 and dlon < 1e-8 and abs(got[2] - alt) < 1e-3 and -180 <= got[1] <= 180 and -90 <= got[0] <= 90
    ck.expect(ok, key, "%s gives %r instead of %r (%g m away)" % (what, got, (lat, lon, alt), d))


def pos(ck, i):
    lat = LATS[i]
    for lon, alt in itertools.product(LONS, ALTS):
        want = ecef(lat, lon, alt)
        ck.ev()
        ck.outcome((lat, lon, alt))
        for n, got in (("python", geo.ecef_from_lla(lat, lon, alt)), ("C++", pygeo.ecef_from_lla(lat, lon, alt)), ("C++ vector", pygeo.ecef_from_lla(np.array([lat, lon, alt], float)))):
            ck.expect(np.allclose(np.array(got, float), want, atol=1e-6, rtol=0), "ecef", "%s ecef_from_lla(%r, %r, %r) = %r instead of %r" % (n, lat, lon, alt, got, want))
        for n, got in (("python", geo.lla_from_ecef(*want)), ("C++", pygeo.lla_from_ecef(*want)), ("C++ vector", pygeo.lla_from_ecef(want))):
            ok_lla(ck, got, lat, lon, alt, "lla", "%s lla_from_ecef(ecef of (%r, %r, %r))" % (n, lat, lon, alt))
        T = np.eye(4)
        T[:3, :3], T[:3, 3] = frame(lat, lon).T, want
        for n, got in (("python", geo.ecef_from_topocentric_transform(lat, lon, alt)), ("C++", pygeo.ecef_from_topocentric_transform(lat, lon, alt)),
                       ("C++ vector", pygeo.ecef_from_topocentric_transform(np.array([lat, lon, alt], float)))):
            ck.expect(np.allclose(got, T, atol=1e-6, rtol=0), "transform", "%s ecef_from_topocentric_transform(%r, %r, %r) =\n%r" % (n, lat, lon, alt, got))
        if abs(lat) < 89:
            for n, got in (("python", geo.ecef_from_topocentric_transform_finite_diff(lat, lon, alt)), ("C++", pygeo.ecef_from_topocentric_transform_finite_diff(lat, lon, alt))):
                ck.expect(np.allclose(got, T, atol=1e-4, rtol=0), "finite-diff", "%s finite differences at (%r, %r, %r) =\n%r" % (n, lat, lon, alt, got))
    ck.sample({"lat": lat, "lon": lon, "alt": alt, "ecef": list(map(float, want))})


def topo(ck, i):
    ref = REFS[i]
    O, A = ecef(*ref), frame(ref[0], ref[1])
    conv = geo.TopocentricConverter(*ref)
    cconv = pygeo.TopocentricConverter(*map(float, ref))
    for lat, lon, alt in itertools.product(LATS, LONS, ALTS):
        X = ecef(lat, lon, alt)
        want = A @ (X - O)
        ck.ev()
        ck.outcome((lat, lon, alt, ref))
        for n, got in (("python", geo.topocentric_from_lla(lat, lon, alt, *ref)), ("C++", pygeo.topocentric_from_lla(lat, lon, alt, *ref)),
                       ("converter", conv.to_topocentric(lat, lon, alt))):
            ck.expect(np.allclose(np.array(got, float), want, atol=1e-5, rtol=0), "topocentric", "%s topocentric of (%r, %r, %r) at %r = %r instead of %r" % (n, lat, lon, alt, ref, got, want))
        x, y, z = map(float, want)
        for n, got in (("python", geo.lla_from_topocentric(x, y, z, *ref)), ("C++", pygeo.lla_from_topocentric(x, y, z, *ref)), ("converter", conv.to_lla(x, y, z))):
            ok_lla(ck, got, lat, lon, alt, "from-topocentric", "%s lla of topocentric %r at %r" % (n, (x, y, z), ref))
    ck.expect((cconv.lat, cconv.lon, cconv.alt) == ref, "converter", "the C++ converter at %r says %r" % (ref, (cconv.lat, cconv.lon, cconv.alt)))
    for got in (conv.to_topocentric(*ref),):
        ck.expect(np.allclose(np.array(got, float), 0, atol=1e-8), "origin", "the reference is at %r of itself" % (got,))
    if abs(ref[0]) < 89:
        e, n, u = conv.to_topocentric(ref[0], ref[1] + 1e-4, ref[2]), conv.to_topocentric(ref[0] + 1e-4, ref[1], ref[2]), conv.to_topocentric(ref[0], ref[1], ref[2] + 10)
        ck.expect(e[0] > 1 and abs(e[1]) < 1e-3 and n[1] > 1 and abs(n[0]) < 1e-3 and abs(u[2] - 10) < 1e-6 and abs(u[0]) + abs(u[1]) < 1e-6, "axes", "axes at %r: %r %r %r" % (ref, e, n, u))
    ck.expect(conv == geo.TopocentricConverter(*ref), "eq", "a converter differs from itself")
    ck.expect(not conv == geo.TopocentricConverter(ref[0] - 1.5, ref[1], ref[2]), "eq", "converters of other references are equal")


def dist(ck, i):
    for lon, l2, o2 in itertools.product(LONS, LATS, LONS):
        p, q = (LATS[i], lon), (l2, o2)
        want = float(np.linalg.norm(ecef(*p, 0) - ecef(*q, 0)))
        got = float(geo.gps_distance(p, q)), float(pygeo.gps_distance(np.array(p, float), np.array(q, float))), float(geo.gps_distance(q, p))
        ck.ev()
        ck.expect(all(abs(g - want) < 1e-5 for g in got), "distance", "distance of %r and %r: %r instead of %r" % (p, q, got, want))
        ck.outcome(("d", p, q))


def arrays(ck, _):
    """arrays are converted as their elements"""
    L = list(itertools.product(LATS, LONS, ALTS))
    A = np.array(L, float)
    ref = REFS[0]
    for n, f, args, rest in (("ecef_from_lla", geo.ecef_from_lla, A, ()), ("lla_from_ecef", geo.lla_from_ecef, np.array([ecef(*v) for v in L]), ()),
                             ("topocentric_from_lla", geo.topocentric_from_lla, A, ref), ("lla_from_topocentric", geo.lla_from_topocentric, A * 1000, ref),
                             ("converter.to_topocentric", geo.TopocentricConverter(*ref).to_topocentric, A, ()), ("converter.to_lla", geo.TopocentricConverter(*ref).to_lla, A * 100, ())):
        many = np.array(f(args[:, 0], args[:, 1], args[:, 2], *rest)).T
        for v, got in zip(args, many):
            one = np.array([float(c) for c in f(*[float(c) for c in v], *rest)])
            ck.ev()
            # near the poles the last bits of sin and cos may differ between array and scalar versions
            ck.expect(np.allclose(got, one, atol=1e-5, rtol=1e-12), "array:" + n, "%s of an array gives %r, alone %r" % (n, got, one))
    d = geo.gps_distance([A[:, 0], A[:, 1]], [A[::-1, 0], A[::-1, 1]])
    for i in range(0, len(L), 7):
        ck.expect(abs(d[i] - geo.gps_distance(L[i][:2], L[-1 - i][:2])) < 1e-5, "array:gps_distance", "%d" % i)
