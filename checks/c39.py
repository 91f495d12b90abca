"""C39: ground control points mean what their files say, and come back from the files the tool writes."""
import io as pyio
import itertools
import json
import math
import os

import numpy as np
from opensfm import dataset, io, pymap

LEVEL = "exploration"
RULE = ("all gcp_list files of up to the bound lines over an alphabet of observations (points sharing position, altitude or "
        "nothing, with and without altitude, known and unknown images), every header projection and UTM zone x positions, "
        "layout variants; all JSON files of small point lists; non-trivial: distinct files")
ASSUMPTIONS = ["EPSG codes whose first axis is the easting", "image names without white space"]
IMAGES = {"a.jpg": (640, 480), "b.JPG": (480, 640), "c.png": (3000, 2000)}
EXIF = {k: {"width": w, "height": h} for k, (w, h) in IMAGES.items()}


def norm(x, y, image):
    w, h = IMAGES[image]
    s = max(w, h)
    return [(x + 0.5 - w / 2.0) / s, (y + 0.5 - h / 2.0) / s]


# transverse Mercator by Krueger's series (WGS84), both ways ----------------------
A, FL = 6378137.0, 1 / 298.257223563
NN = FL / (2 - FL)
RAD = A / (1 + NN) * (1 + NN ** 2 / 4 + NN ** 4 / 64)
AL = [NN / 2 - 2 * NN ** 2 / 3 + 5 * NN ** 3 / 16 + 41 * NN ** 4 / 180,
      13 * NN ** 2 / 48 - 3 * NN ** 3 / 5 + 557 * NN ** 4 / 1440, 61 * NN ** 3 / 240 - 103 * NN ** 4 / 140,
      49561 * NN ** 4 / 161280]


def tm(lat, lon, lon0):
    e = math.sqrt(FL * (2 - FL))
    phi, lam = math.radians(lat), math.radians(lon - lon0)
    t = math.sinh(math.atanh(math.sin(phi)) - e * math.atanh(e * math.sin(phi)))
    xi, eta = math.atan2(t, math.cos(lam)), math.atanh(math.sin(lam) / math.sqrt(1 + t * t))
    x = eta + sum(a * math.cos(2 * (j + 1) * xi) * math.sinh(2 * (j + 1) * eta) for j, a in enumerate(AL))
    y = xi + sum(a * math.sin(2 * (j + 1) * xi) * math.cosh(2 * (j + 1) * eta) for j, a in enumerate(AL))
    return 500000 + 0.9996 * RAD * x, 0.9996 * RAD * y


def utm(lat, lon, zone, south):
    e, n = tm(lat, lon, 6 * zone - 183)
    return e, n + (1e7 if south else 0)


def mercator(lat, lon):
    return math.radians(lon) * A, math.log(math.tan(math.pi / 4 + math.radians(lat) / 2)) * A


POINTS = [(13.4, 52.5, 12.0), (13.4, 52.5, math.nan), (13.4, 52.5, 0.0), (13.4, 52.6, 12.0), (13.5, 52.5, math.nan)]


def token(v):
    return "NaN" if v != v else repr(v)


def lines_alphabet():
    out = []
    for p in POINTS:
        for k, im in enumerate(("a.jpg", "b.JPG", "gone.jpg")):
            out.append((p, (100.25 + k, 37.5 - 3 * k), im))
    return out


def cases(ck):
    n = len(lines_alphabet())
    out = [["seqs", i, 3 if ck.quick else 4] for i in range(n)]
    out += [["zones", z] for z in range(1, 61)]
    out += [["headers"], ["layout"], ["both"], ["bare"]]
    out += [["json", n] for n in (0, 1, 2)] + ([["json", 3]] if not ck.quick else [])
    return out


def describe(points):
    return [(p.id, {k: float(v) for k, v in p.lla.items()}, bool(p.has_altitude),
             [(o.shot_id, [float(v) for v in o.projection]) for o in p.observations]) for p in points]


def near(a, b, tol=1e-9):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(near(a[k], b[k], tol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(near(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return abs(a - b) <= tol
    return a == b


def group(obs):
    """[(position key, lat, lon, alt or None, px, image)] -> what the points must be, in order of appearance"""
    pts = {}
    for key, lat, lon, alt, px, im in obs:
        if im not in IMAGES:
            continue
        p = pts.setdefault(key, ["unnamed-%d" % len(pts), {"latitude": lat, "longitude": lon, "altitude": alt or 0.0}, alt is not None, []])
        p[3].append((im, norm(px[0], px[1], im)))
    return [tuple(p) for p in pts.values()]


def compare(ck, text, want, key, tol=1e-9, got=None):
    ck.ev()
    if got is None:
        got = io.read_gcp_list(pyio.StringIO(text, newline=None), EXIF)
    got = describe(got)
    ids = [g[0] for g in got]
    ck.expect(len(set(ids)) == len(ids), key + "-ids", "two points share an id in %r" % (text,))
    ck.expect(near([g[1:] for g in got], [w[1:] for w in want], tol), key,
              "the points of %r are\n%r\ninstead of\n%r" % (text, got, want))
    ck.outcome(repr(want))


def seqs(ck, first, depth):
    al = lines_alphabet()
    for n in range(0, depth):
        for rest in itertools.product(range(len(al)), repeat=n):
            seq = [al[first]] + [al[i] for i in rest]
            text = "WGS84\n" + "".join("%r %r %s %r %r %s\n" % (p[0], p[1], token(p[2]), x, y, im) for p, (x, y), im in seq)
            want = group([((p[0], p[1], token(p[2])), p[1], p[0], None if p[2] != p[2] else p[2], px, im) for p, px, im in seq])
            compare(ck, text, want, "list")
            if n == 2:
                ck.sample({"file": text})


def zones(ck, z):
    for hemi in ("N", "S", ""):
        for lat in (1.0, 37.25, 63.5):
            for dlon in (-2.9, -0.5, 0.0, 1.75, 2.9):
                la = -lat if hemi == "S" else lat
                lon = 6 * z - 183 + dlon
                e, n = utm(la, lon, z, hemi == "S")
                proj4 = "+proj=utm +zone=%d +%s +ellps=WGS84 +datum=WGS84 +units=m +no_defs" % (z, "south" if hemi == "S" else "north")
                heads = ["WGS84 UTM %d%s" % (z, hemi)]
                if dlon == 1.75:
                    heads += ["wgs84 utm %d%s" % (z, hemi.lower()), proj4, "EPSG:%d" % ((32700 if hemi == "S" else 32600) + z)]
                for head in heads:
                    text = "%s\n%r %r 5.5 10 20 c.png\n%r %r 5.5 11 21 a.jpg\n" % (head, e, n, e, n)
                    want = group([(0, la, lon, 5.5, (10, 20), "c.png"), (0, la, lon, 5.5, (11, 21), "a.jpg")])
                    compare(ck, text, want, "utm", 2e-8)


def headers(ck):
    for lat, lon in [(0.0, 0.0), (52.5, 13.4), (-33.9, 151.2), (37.7, -122.4), (-80.0, 179.5), (64.1, -179.9)]:
        mx, my = mercator(lat, lon)
        for head, x, y in [("WGS84", lon, lat), ("+proj=longlat +datum=WGS84 +no_defs", lon, lat), ("EPSG:3857", mx, my),
                           ("epsg:3857", mx, my), ("+proj=merc +a=6378137 +b=6378137 +lat_ts=0 +lon_0=0 +x_0=0 +y_0=0 +k=1 +units=m +no_defs", mx, my)]:
            for alt in ("7.25", "-3", "NaN", "0"):
                text = "%s\n%r %r %s 1 2 a.jpg\n" % (head, x, y, alt)
                want = group([(0, lat, lon, None if alt == "NaN" else float(alt), (1, 2), "a.jpg")])
                compare(ck, text, want, "headers", 2e-8)
    for head in ("", "LAMBERT", "UTM 32N", "EPSG", "WGS 84"):
        ck.ev()
        try:
            got = io.read_gcp_list(pyio.StringIO(head + "\n1 2 3 4 5 a.jpg\n"), EXIF)
        except Exception:
            continue
        ck.fail("header-unknown", "the header %r was read as %r" % (head, describe(got)))


def layout(ck):
    """comments, blank lines, separators and line ends change nothing"""
    rows = [["13.4", "52.5", "12", "100", "30", "a.jpg"], ["13.4", "52.5", "12", "5.5", "6.5", "b.JPG"], ["13.5", "52.5", "NaN", "1", "2", "a.jpg"],
            ["13.5", "52.5", "nan", "1", "2", "b.JPG"], ["13.400", "52.50", "12.0", "9", "8", "c.png"]]
    want = group([((float(r[0]), float(r[1]), token(float(r[2]))), float(r[1]), float(r[0]), None if r[2].lower() == "nan" else 12.0,
                   (float(r[3]), float(r[4])), r[5]) for r in rows])
    extras = ["", "# note", "   ", "  # 1 2 3 4 5 a.jpg", "#", "\t"]
    for sep, end, tail in itertools.product((" ", "\t", "   "), ("\n", "\r\n"), ("", " gcp7", "\tname more", "  ")):
        body = [sep.join(r) + tail for r in rows]
        for at in range(len(rows) + 2):
            for ex in extras:
                lines = ["WGS84"] + body
                lines.insert(at, ex)
                compare(ck, end.join(lines) + end, want, "layout")
                compare(ck, end.join(lines), want, "layout")
    compare(ck, "WGS84\n", [], "layout")
    for n in (9, 10, 11, 25, 101):      # many points
        rows = [(10 + 0.01 * (q % n), 50.0, 5.0, (q, 2 * q), ("a.jpg", "c.png")[q // n]) for q in range(2 * n)]
        want = group([((r[0], r[1]), r[1], r[0], r[2], r[3], r[4]) for r in rows])
        compare(ck, "WGS84\n" + "".join("%r %r %r %r %r %s\n" % (r[0], r[1], r[2], r[3][0], r[3][1], r[4]) for r in rows), want, "layout")


def mk(pid, lla, obs):
    p = pymap.GroundControlPoint()
    p.id = pid
    if lla is not None:
        p.lla = {"latitude": lla[0], "longitude": lla[1], **({"altitude": lla[2]} if len(lla) > 2 else {})}
        p.has_altitude = len(lla) > 2
    for s, xy in obs:
        o = pymap.GroundControlPointObservation()
        o.shot_id, o.projection = s, np.array(xy)
        p.add_observation(o)
    return p


LLAS = [None, (52.519251158, 13.400502446, 16.7021233002), (-33.9, 151.25), (0.0, 0.0, 0.0), (1e-9, -179.999999999, -431.5)]
OBS = [[], [("a.jpg", (0.1234567890123, -0.5))], [("a.jpg", (0.0, 0.0)), ("b.JPG", (-0.3, 0.25))],
       [("b.JPG", (0.1, 0.2)), ("a.jpg", (1 / 3, -1 / 7)), ("\u00e9 x.png", (0.5, 0.5))]]
IDS = ["1", "g\u00fc \"q\"", "my_measured_gcp_1"]


def write_read(ck, spec, key):
    ck.ev()
    buf = pyio.StringIO()
    src = [mk(*s) for s in spec]
    io.write_ground_control_points(src, buf)
    doc = json.loads(buf.getvalue())
    want = {"points": []}
    for pid, lla, obs in spec:
        d = {"id": pid, "observations": [{"shot_id": s, "projection": list(xy)} for s, xy in obs]}
        if lla is not None:
            d["position"] = dict(zip(("latitude", "longitude", "altitude"), lla))
        want["points"].append(d)
    ck.expect(doc == want, key + "-file", "the file written for %r is %r" % (spec, doc))
    got = describe(io.read_ground_control_points(pyio.StringIO(json.dumps(want))))
    exp = [(pid, {} if lla is None else {k: float(v) for k, v in zip(("latitude", "longitude", "altitude"), lla)},
            lla is not None and len(lla) > 2, [(s, [float(v) for v in xy]) for s, xy in obs]) for pid, lla, obs in spec]
    ck.expect(got == exp, key + "-read", "the file %r is read as %r" % (want, got))
    for p, (pid, lla, obs) in zip(io.read_ground_control_points(pyio.StringIO(buf.getvalue())), spec):
        if lla is not None:
            v = [float(x) for x in p.lla_vec]
            ck.expect(v == [lla[0], lla[1], lla[2] if len(lla) > 2 else 0.0], key + "-vec", "lla_vec of %r is %r" % (lla, v))
    ck.outcome(repr(want))


def json_(ck, n):
    kinds = list(itertools.product(LLAS, OBS))
    for combo in itertools.product(kinds, repeat=n):
        write_read(ck, [(IDS[i], lla, obs) for i, (lla, obs) in enumerate(combo)], "json")


def both(ck):
    """the two files of a dataset add up, and what save_ground_control_points saves is what is loaded"""
    for has_list, has_json in itertools.product((0, 1), (0, 1)):
        path = os.path.join(ck.scratch, "gcp%d%d" % (has_list, has_json))
        os.makedirs(os.path.join(path, "images"))
        for im in IMAGES:
            open(os.path.join(path, "images", im), "w").close()
        data = dataset.DataSet(path)
        for im in IMAGES:
            data.save_exif(im, dict(EXIF[im]))
        want = []
        if has_list:
            with open(os.path.join(path, "gcp_list.txt"), "w") as f:
                f.write("WGS84\n13.4 52.5 12 1 2 a.jpg\n13.4 52.5 NaN 1 2 a.jpg\n13.4 52.5 12 3 4 b.JPG\n")
            want = group([(0, 52.5, 13.4, 12.0, (1, 2), "a.jpg"), (1, 52.5, 13.4, None, (1, 2), "a.jpg"), (0, 52.5, 13.4, 12.0, (3, 4), "b.JPG")])
        if has_json:
            spec = [("x", LLAS[1], OBS[2]), ("y", None, OBS[1])]
            data.save_ground_control_points([mk(*s) for s in spec])
            want = want + [(p, {} if lla is None else dict(zip(("latitude", "longitude", "altitude"), lla)), lla is not None, [(s, list(xy)) for s, xy in obs])
                           for p, lla, obs in spec]
        compare(ck, "dataset with list=%d json=%d" % (has_list, has_json), want, "both", got=dataset.DataSet(path).load_ground_control_points())


def bare(ck):
    """observations without a projection, and repeated ones, are all read"""
    for mask in range(16):
        obs = [{"shot_id": s, **({"projection": [0.25, -0.125 * i]} if mask >> i & 1 else {})}
               for i, s in enumerate(("a.jpg", "b.JPG", "a.jpg", "c"))]
        ck.ev()
        pts = io.read_ground_control_points(pyio.StringIO(json.dumps({"points": [{"id": "p", "observations": obs}]})))
        got = [(o.shot_id, [float(v) for v in o.projection]) for p in pts for o in p.observations]
        ck.expect(len(pts) == 1 and got == [(o["shot_id"], o.get("projection", [0.0, 0.0])) for o in obs], "bare", "%r read as %r" % (obs, got))
        ck.outcome(mask)


_dispatch = {"bare": bare, "seqs": seqs, "zones": zones, "headers": headers, "layout": layout, "both": both, "json": json_}


def check(ck, case):
    _dispatch[case[0]](ck, *case[1:])
