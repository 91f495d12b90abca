"""C32: GPS tracks are interpolated, sampled and written to images exactly."""
import datetime
import itertools
import math
import os
import runpy
import shutil
import sys
import types
from fractions import Fraction

import numpy as np

import boot

LEVEL = "exploration"
RULE = ("all tracks of up to the bound points over an alphabet of steps in position, time and elevation, in five places of the Earth; "
        "all times at, between and out of the points, all sampling distances and intervals; non-trivial: distinct results")
ASSUMPTIONS = ["steps up to a few hundred metres, as of recorded tracks", "stand-ins for pyexiv2, which keeps the tags, and for gpxpy, which reads the points"]
T0 = datetime.datetime(2020, 2, 29, 23, 59, 50)
PLACES = [(52.5, 13.4), (0.0, 0.0), (-33.9, -70.6), (10.0, 179.9998), (-10.0, -179.9998)]
STEPS = [(0.0, 0.0), (2e-4, 0.0), (0.0, 5e-4), (-1e-4, -4e-4)]
TIMES = [0.0, 1.0, 12.5]


def module():
    class Tag:
        def __init__(self, v):
            self.value = v

    class ImageMetadata(dict):
        files = {}

        def __init__(self, f):
            super().__init__()
            self.f = f

        def read(self):
            for k, v in self.files.get(self.f, {}).items():
                self[k] = v

        def __setitem__(self, k, v):
            super().__setitem__(k, v if isinstance(v, Tag) else Tag(v))

        def write(self):
            self.files[self.f] = {k: v.value for k, v in self.items()}

    m, u = types.ModuleType("pyexiv2"), types.ModuleType("pyexiv2.utils")
    m.ImageMetadata, u.make_fraction, m.utils = ImageMetadata, (lambda a, b: Fraction(a, b)), u
    sys.modules["pyexiv2"], sys.modules["pyexiv2.utils"] = m, u
    if "opensfm.geotag_from_gpx" in sys.modules:
        del sys.modules["opensfm.geotag_from_gpx"]
    import importlib
    return quiet(importlib.import_module, "opensfm.geotag_from_gpx"), ImageMetadata


def wrap(lon):
    return (lon + 180.0) % 360.0 - 180.0


def tracks(place, n, eles):
    """Tracks as lists of (seconds, lat, unwrapped lon, elevation)"""
    lat, lon = PLACES[place]
    for steps in itertools.product(STEPS, repeat=n - 1):
        for times in itertools.product(TIMES, repeat=n - 1):
            for el in itertools.product(eles, repeat=n):
                out = [(0.0, lat, lon, el[0])]
                for s, t, e in zip(steps, times, el[1:]):
                    p = out[-1]
                    out.append((p[0] + t, p[1] + s[0], p[2] + s[1], e))
                yield out


def points(track):
    return [(T0 + datetime.timedelta(seconds=t), la, wrap(lo), e) for t, la, lo, e in track]


def bearing(a, b):
    """direction of b in the tangent plane at a, from vectors"""
    la, lo, lb, lp = (math.radians(x) for x in (a[1], a[2], b[1], b[2]))
    v = (math.cos(lb) * math.cos(lp), math.cos(lb) * math.sin(lp), math.sin(lb))
    e = (-math.sin(lo), math.cos(lo), 0)
    n = (-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la))
    return math.degrees(math.atan2(sum(x * y for x, y in zip(v, e)), sum(x * y for x, y in zip(v, n)))) % 360


def angle_near(a, b, tol):
    return abs((a - b + 180) % 360 - 180) <= tol


def at(track, t):
    """(lat, unwrapped lon, elevation, segment) at time t"""
    for a, b in zip(track, track[1:]):
        if a[0] <= t < b[0]:
            f = (t - a[0]) / (b[0] - a[0])
            return a[1] + f * (b[1] - a[1]), a[2] + f * (b[2] - a[2]), None if a[3] is None or b[3] is None else a[3] + f * (b[3] - a[3]), (a, b)


def ecef(lat, lon):
    a, e2 = 6378137.0, 0.0066943799901413165
    la, lo = math.radians(lat), math.radians(lon)
    n = a / math.sqrt(1 - e2 * math.sin(la) ** 2)
    return n * math.cos(la) * math.cos(lo), n * math.cos(la) * math.sin(lo), n * (1 - e2) * math.sin(la)


def dist(a, b):
    return math.dist(ecef(a[1], a[2]), ecef(b[1], b[2]))


def cases(ck):
    out = []
    for p in range(len(PLACES)):
        for n in (2, 3):
            out.append(["interp", p, n])
        for n in (2, 3) + (() if ck.quick else (4,)):
            out += [["time", p, n], ["space", p, n]]
    return out + [["deg"], ["bearing"], ["exif"], ["gpx"], ["movie"]] + [["update", p] for p in range(len(PLACES))]


def quiet(f, *a, **k):
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        return f(*a, **k)
    finally:
        sys.stdout.close()
        sys.stdout = out


def interp(ck, place, n):
    g, _ = module()
    for tr in tracks(place, n, (None, 5.0, -2.5) if n > 2 else (None, 5.0, -2.5, 0.0)):
        ts = sorted({p[0] for p in tr})
        q = set(ts) | {x - 0.5 for x in ts} | {x + 0.25 for x in ts} | {(x + y) / 2 for x, y in zip(ts, ts[1:])}
        pts = points(tr)
        for t in q:
            ck.ev()
            what = "track %r at %r s" % (tr, t)
            want = at(tr, t)
            try:
                got = g.interpolate_lat_lon(pts, T0 + datetime.timedelta(seconds=t))
            except ValueError:
                ck.expect(want is None, "interp-scope", "%s is said to be out of scope" % what)
                continue
            except Exception as e:
                ck.fail("interp", "%s raises %s: %s" % (what, type(e).__name__, e))
                continue
            if want is None:
                ck.fail("interp-scope", "%s is out of scope but gives %r" % (what, got))
                continue
            ck.expect(abs(got[0] - want[0]) < 1e-9 and angle_near(got[1], want[1], 1e-9) and -180 <= got[1] <= 180, "interp", "%s is %r instead of %r" % (what, got, want))
            ck.expect((got[3] is None) == (want[2] is None) and (want[2] is None or abs(got[3] - want[2]) < 1e-9), "interp-ele", "%s is %r instead of %r" % (what, got, want))
            a, b = want[3]
            if a[1:3] != b[1:3]:
                ck.expect(angle_near(got[2], bearing(a, b), 1e-5), "interp-bearing", "%s has bearing %r instead of %r" % (what, got[2], bearing(a, b)))
            ck.outcome((place, round(got[0], 7), round(got[1], 7), got[3]))


def sample_time(ck, place, n):
    g, _ = module()
    for tr in tracks(place, n, (None, 7.0) if n > 2 else (None, 7.0, 0.0)):
        for dt in (0.5, 1.0, 5.0, 7.5, 100.0):
            ck.ev()
            what = "track %r every %r s" % (tr, dt)
            try:
                got = quiet(g.sample_gpx, points(tr), 3.0, dt)
            except Exception as e:
                ck.fail("time", "%s raises %s: %s" % (what, type(e).__name__, e))
                continue
            k = int(math.floor(tr[-1][0] / dt + 1e-9)) + 1
            if not ck.expect(len(got) == k, "time", "%s gives %d points instead of %d" % (what, len(got), k)):
                continue
            ck.expect(got[0] == points(tr)[0], "time", "%s starts with %r" % (what, got[0]))
            for i, p in enumerate(got):
                s = (p[0] - T0).total_seconds()
                ck.expect(abs(s - i * dt) < 1e-4, "time", "%s: point %d is at %r s" % (what, i, s))
                # where the track is at this time; at a jump (two points of the same time) either end will do
                w = [x for x in (at(tr, i * dt), at(tr, i * dt - 1e-7)) if x] + [(q[1], q[2], q[3]) for q in tr if abs(q[0] - i * dt) < 1e-6]
                ck.expect(any(abs(p[1] - x[0]) < 1e-8 and angle_near(p[2], x[1], 1e-8) for x in w), "time",
                          "%s: point %d is %r instead of %r" % (what, i, p, w))
                ck.expect(any(p[3] == x[2] or (None not in (p[3], x[2]) and abs(p[3] - x[2]) < 1e-4) for x in w), "time-ele",
                          "%s: point %d is %r instead of %r" % (what, i, p, w))
            ck.outcome((place, [round(p[1], 8) for p in got]))


def sample_space(ck, place, n):
    g, _ = module()
    for tr in tracks(place, n, (7.0,)):
        pts = points(tr)
        for dx in (3.0, 10.0, 33.0, 80.0, 1e4):
            ck.ev()
            what = "track %r every %r m" % (tr, dx)
            try:
                got = quiet(g.sample_gpx, pts, dx)
            except Exception as e:
                ck.fail("space", "%s raises %s: %s" % (what, type(e).__name__, e))
                continue
            # first point, then the first point of the track at distance dx of the last one, and so on
            want, seg, f0 = [tr[0]], 0, 0.0
            while seg < len(tr) - 1:
                a, b = tr[seg], tr[seg + 1]
                lerp = lambda f: tuple(x + f * (y - x) for x, y in zip(a[:3], b[:3]))
                if dist(want[-1], b) >= dx:
                    lo, hi = f0, 1.0
                    for _ in range(60):
                        mid = (lo + hi) / 2
                        lo, hi = (lo, mid) if dist(want[-1], lerp(mid)) >= dx else (mid, hi)
                    want.append(lerp(hi))
                    f0 = hi
                else:
                    seg, f0 = seg + 1, 0.0
            if not ck.expect(len(got) == len(want), "space", "%s gives %d points instead of %d" % (what, len(got), len(want))):
                continue
            for i, (p, w) in enumerate(zip(got, want)):
                ck.expect(dist(p, w) < 0.1 and abs((p[0] - T0).total_seconds() - w[0]) < 0.05, "space",
                          "%s: point %d is %r instead of %r" % (what, i, p, w))
            ck.outcome((place, dx, len(got), round(got[-1][1], 7)))


def deg(ck):
    g, _ = module()
    vals = sorted({s * (d + m / 60 + x / 3600) for s in (1, -1) for d in (0, 1, 12, 89, 179) for m in (0, 1, 30, 59)
                   for x in (0, 1e-6, 0.5, 29.999999, 30, 59.5, 59.999999, 59.9999999)})
    for v in vals:
        for refs in (["S", "N"], ["W", "E"]):
            ck.ev()
            d, m, s, r = g.to_deg(v, refs)
            ck.expect(d >= 0 and 0 <= m < 60 and 0 <= s <= 60 and int(d) == d and int(m) == m and abs(d + m / 60 + s / 3600 - abs(v)) < 2e-10
                      and (v == 0 or r == refs[v > 0]), "deg", "%r is %r" % (v, (d, m, s, r)))
            ck.outcome((d, m, s, r))


def bearings(ck):
    g, _ = module()
    ps = [(0, 0), (10, 20), (-45, 170), (80, -179.5), (60, 179.5), (-1, -1), (89, 0), (0, 90)]
    for a, b in itertools.permutations(ps, 2):
        ck.ev()
        got, want = g.compute_bearing(*a, *b), bearing((0,) + a, (0,) + b)
        ck.expect(angle_near(got, want, 1e-6) and 0 <= got < 360.0000001, "bearing", "bearing from %r to %r is %r instead of %r" % (a, b, got, want))
        ck.outcome(round(got, 6))


def decode(tags):
    def dms(v, ref, neg):
        x = v[0] + v[1] / 60 + v[2] / 3600
        return float(-x if ref == neg else x)
    alt = tags.get("Exif.GPSInfo.GPSAltitude")
    if alt is not None:
        alt = float(alt) * (-1 if str(tags["Exif.GPSInfo.GPSAltitudeRef"]) == "1" else 1)
    if tags.get("Exif.GPSInfo.GPSImgDirectionRef") != "T" or tags.get("Exif.GPSInfo.GPSMapDatum") != "WGS-84" or tags.get("Exif.GPSInfo.GPSVersionID") != "2 0 0 0":
        return False, 0.0, 0.0, alt, 0.0
    if alt is not None and str(tags["Exif.GPSInfo.GPSAltitudeRef"]) not in "01":
        return False, 0.0, 0.0, alt, 0.0
    ok = tags.get("Exif.GPSInfo.GPSLatitudeRef") in ("N", "S", "") and tags.get("Exif.GPSInfo.GPSLongitudeRef") in ("E", "W", "")
    return ok, dms(tags["Exif.GPSInfo.GPSLatitude"], tags["Exif.GPSInfo.GPSLatitudeRef"], "S"), \
        dms(tags["Exif.GPSInfo.GPSLongitude"], tags["Exif.GPSInfo.GPSLongitudeRef"], "W"), alt, float(tags["Exif.GPSInfo.GPSImgDirection"])


def exif(ck):
    g, meta = module()
    f, f2 = os.path.join(ck.scratch, "a.jpg"), os.path.join(ck.scratch, "b.jpg")
    open(f, "wb").write(b"pixels")
    for lat in (52.123456789, -33.9, 0.0, -1e-5, 89.99999):
        for lon in (13.4, -70.123456, 179.9999, -0.00002, 0.0):
            for ele in (None, 0.0, 12.34, -3.21):
                for b in (0.0, 12.345, 359.999):
                    for other, drop in itertools.product((None, f2), (None, True, False)):
                        ck.ev()
                        meta.files.clear()
                        meta.files[f] = {"Exif.Image.Make": "x"}
                        meta.files[f2] = {"Exif.Image.Make": "x", "Exif.Image.ImageDescription": "d"}
                        if other is None:
                            meta.files[f]["Exif.Image.ImageDescription"] = "d"
                        g.add_gps_to_exif(f, lat, lon, b, ele, other, **({} if drop is None else {"remove_image_description": drop}))
                        t = meta.files[other or f]
                        ck.expect(t.get("Exif.Image.ImageDescription") == ("d" if drop is False else []), "exif-description", "description %r with removal %r" % (t.get("Exif.Image.ImageDescription"), drop))
                        ok, la, lo, al, di = decode(t)
                        ck.expect(ok and abs(la - lat) < 1e-9 and abs(lo - lon) < 1e-9 and (al is None) == (ele is None) and (ele is None or abs(al - ele) < 0.0101)
                                  and abs(di - b) < 0.0101 and t["Exif.Image.Make"] == "x", "exif", "%r is written as %r" % ((lat, lon, b, ele), t))
                        if other:
                            ck.expect(meta.files[f] == {"Exif.Image.Make": "x"} and open(f2, "rb").read() == b"pixels", "exif-copy", "writing a copy changes the image")
                        ck.outcome((la, lo, al))
    for place in range(len(PLACES)):
        tr = [(0.0, PLACES[place][0], PLACES[place][1], 3.0), (10.0, PLACES[place][0] + 1e-3, PLACES[place][1] + 1e-3, 4.0)]
        for t in (-1.0, 0.0, 2.5, 9.0, 10.0, 11.0, 13.0):
            for off in (0, 2, -3):
                for own in (False, True):
                    ck.ev()
                    meta.files.clear()
                    when = T0 + datetime.timedelta(seconds=t)
                    meta.files[f] = {"Exif.Photo.DateTimeOriginal": when if own else T0 + datetime.timedelta(days=9)}
                    before = dict(meta.files[f])
                    text = [None, "text"][int(off > 0)]
                    quiet(g.add_exif_using_timestamp, f, points(tr), off, None if own else when, 6, *([] if text is None else [text]))
                    want, tags = at(tr, t - off), meta.files[f]
                    if want is None:
                        ck.expect("Exif.GPSInfo.GPSLatitude" not in tags and (tags == before or not own), "exif-time", "time %r - %r out of the track is written: %r" % (t, off, tags))
                        continue
                    if not ck.expect("Exif.GPSInfo.GPSLatitude" in tags, "exif-time", "time %r - %r of the track is not written" % (t, off)):
                        continue
                    ok, la, lo, al, di = decode(tags)
                    ck.expect(tags.get("Exif.Image.ImageDescription") == text, "exif-description", "description %r instead of %r" % (tags.get("Exif.Image.ImageDescription"), text))
                    ck.expect(ok and abs(la - want[0]) < 1e-9 and angle_near(lo, want[1], 1e-9) and abs(al - want[2]) < 0.0101 and angle_near(di, bearing(*want[3]), 0.002)
                              and tags["Exif.Photo.DateTimeOriginal"] == when and tags["Exif.Image.Orientation"] == 6,
                              "exif-time", "time %r - %r of track %r is written as %r" % (t, off, tr, tags))


ZONES = ["UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "NPT-5:45", "NZST-12NZDT,M9.5.0,M4.1.0/3"]
OFFS = [lambda t: 0, lambda t: 2 if 4 <= t.month <= 9 else 1, lambda t: -4 if 3 <= t.month <= 10 else -5, lambda t: 5.75, lambda t: 12 if 5 <= t.month <= 9 else 13]


def gpxfile(ck, tracks):
    """A GPX file and a stand-in for its parser."""
    f = os.path.join(ck.scratch, "t%d.gpx" % os.getpid())
    ns = "http://www.topografix.com/GPX/1/1"
    with open(f, "w") as fout:
        fout.write('<gpx xmlns="%s">' % ns + "".join("<trk>%s</trk>" % "".join("<trkseg>%s</trkseg>" % "".join(
            '<trkpt lat="%r" lon="%r"><ele>%r</ele><time>%s</time></trkpt>' % (la, lo, e, t.strftime("%Y-%m-%dT%H:%M:%SZ")) for t, la, lo, e in seg) for seg in trk) for trk in tracks) + "</gpx>")

    def parse(fin):
        import xml.etree.ElementTree as ET
        root = ET.fromstring(fin.read())
        q = lambda n: "{%s}%s" % (ns, n)
        pt = lambda p: types.SimpleNamespace(latitude=float(p.get("lat")), longitude=float(p.get("lon")), elevation=float(p.find(q("ele")).text),
                                             time=datetime.datetime.strptime(p.find(q("time")).text, "%Y-%m-%dT%H:%M:%SZ"))
        seg = lambda s: types.SimpleNamespace(points=[pt(p) for p in s.findall(q("trkpt"))])
        return types.SimpleNamespace(tracks=[types.SimpleNamespace(segments=[seg(s) for s in t.findall(q("trkseg"))]) for t in root.findall(q("trk"))])
    return f, parse


def gpx(ck):
    """Track points come in time order, in local time for cameras that use it."""
    import time
    g, _ = module()
    g.gpxpy = types.SimpleNamespace()
    days = [datetime.datetime(2020, m, 15, 12, 0, 0) for m in (1, 3, 7, 11)] + [datetime.datetime(2020, 7, 15, 23, 59, 45)]
    old = os.environ.get("TZ")
    try:
        for z, zone in enumerate(ZONES):
            os.environ["TZ"] = zone
            time.tzset()
            for day in days:
                pts = [(day + datetime.timedelta(seconds=s), 10.0 + s / 1e4, 20.0 - s / 1e4, 5.0 + s) for s in (0, 7, 20, 33)]
                for perm in itertools.permutations(range(4)):
                    for cut in ([4], [1, 3], [2, 2], [1, 1, 2]):
                        for nest in (0, 1):
                            order, segs, k = [pts[i] for i in perm], [], 0
                            for c in cut:
                                segs.append(order[k:k + c])
                                k += c
                            f, parse = gpxfile(ck, [segs] if nest else [[s] for s in segs])
                            g.gpxpy.parse = parse
                            for mode in ("utc", "local"):
                                got = quiet(g.get_lat_lon_time, f, mode)
                                off = datetime.timedelta(hours=OFFS[z](day) if mode == "utc" else 0)
                                want = [(t + off,) + tuple(p) for t, *p in pts]
                                ck.ev()
                                ok = len(got) == 4 and all(abs((a[0] - b[0]).total_seconds()) < 0.01 and tuple(a[1:]) == tuple(b[1:]) for a, b in zip(got, want))
                                ck.expect(ok, "gpx", "time zone %s, points %r in segments of %r, read as %s: %r instead of %r" % (zone, perm, cut, mode, got, want))
                                ck.outcome((z, day.month, perm, tuple(cut), nest, mode))
    finally:
        if old is None:
            os.environ.pop("TZ", None)
        else:
            os.environ["TZ"] = old
        time.tzset()


def movie(ck):
    """Frames of a video at the sampled track points, with their positions."""
    import importlib
    import io as stdio
    import numpy as np
    g, meta = module()
    sys.modules.pop("opensfm.video", None)
    import opensfm
    opensfm.geotag_from_gpx = g
    v = quiet(importlib.import_module, "opensfm.video")
    g.gpxpy = types.SimpleNamespace()
    out = os.path.join(ck.scratch, "frames%d" % os.getpid())
    os.makedirs(out, exist_ok=True)
    real = v.cv2
    frames = {}

    class Capture:
        length = 0

        def __init__(self, name):
            self.name, self.pos, self.released = name, 0, False

        def set(self, prop, val):
            assert prop == real.CAP_PROP_POS_MSEC, prop
            self.pos = val
            return True

        def read(self):
            if self.pos > self.length:
                return False, None
            return True, (self.name, self.pos)

        def release(self):
            self.released = True

    def write(path, frame):
        frames[path] = frame
        open(path, "wb").close()
        return True

    answers = {}

    class Popen:
        def __init__(self, cmd, **k):
            if cmd[0] != "exiftool" or cmd[-1] != "v.mp4":
                raise OSError(cmd)
            self.stdout = stdio.BytesIO(answers[cmd[1]].encode())

    v.cv2 = types.SimpleNamespace(VideoCapture=Capture, imwrite=write, CAP_PROP_POS_MSEC=real.CAP_PROP_POS_MSEC, destroyAllWindows=lambda: None)
    v.Popen = Popen
    start = T0.replace(second=0)
    for place in (0, 3):
        lat, lon = PLACES[place]
        tr = [(0.0, lat, lon, 3.0), (10.0, lat + 1e-3, lon, 4.0), (14.0, lat + 1e-3, lon + 5e-4, 4.0), (31.5, lat - 1e-3, lon + 5e-4, 9.0)]
        pts = [(start + datetime.timedelta(seconds=t), la, wrap(lo), e) for t, la, lo, e in tr]
        g.gpxpy.parse = lambda f: types.SimpleNamespace(tracks=[types.SimpleNamespace(segments=[types.SimpleNamespace(points=[
            types.SimpleNamespace(time=t, latitude=la, longitude=lo, elevation=e) for t, la, lo, e in pts])])])
        for shift in (-7.25, 0.0, 4.5, 40.0):
            for how in ("given", "video", "none"):
                for rot, want_o in (("", 1), ("0", 1), ("90", 6), ("180", 3), ("270", 8), ("45", None)):
                    for dx, dt in ((20.0, None), (0, 3.0), (35.0, 2.5)):
                        for length in (0, 9000, 60000):
                            at_ = start + datetime.timedelta(seconds=shift)
                            answers.update({"-Rotation": rot, "-CreateDate": at_.strftime("%Y:%m:%d %H:%M:%S") + "\n" if how == "video" else ""})
                            if how == "video":
                                at_ = at_.replace(microsecond=0)
                            if how == "none":
                                at_ = pts[0][0]
                            Capture.length = length
                            frames.clear()
                            meta.files.clear()
                            what = "track at %d, video from %+g s (%s), rotation %r, dx %r dt %r, length %d" % (place, shift, how, rot, dx, dt, length)
                            ck.ev()
                            try:
                                got = quiet(v.import_video_with_gpx, "v.mp4", os.devnull, out, dx, dt, at_.isoformat() if how == "given" else None)
                            except RuntimeError:
                                ck.expect(want_o is None, "video-rotation", what + ": raised")
                                continue
                            ck.expect(want_o is not None, "video-rotation", what + ": accepted")
                            want = {}
                            for p in quiet(g.sample_gpx, pts, dx, dt):
                                ms = (p[0] - at_).total_seconds() * 1000
                                name = os.path.join(out, p[0].strftime("%Y_%m_%d_%H_%M_%S_%f")[:-3] + ".jpg")
                                if ms > 0 and int(ms) <= length:
                                    want[name] = (int(ms), p)
                            res = {k: f for k, f in frames.items() if f[1] > 0 or k in want}
                            ck.expect({k: f for k, f in res.items()} == {k: ("v.mp4", m) for k, (m, _) in want.items()}, "video-frames", "%s: frames %r instead of %r" % (what, frames, want))
                            ck.expect(sorted(got) == sorted(frames), "video-list", "%s: %r listed, %r written" % (what, got, sorted(frames)))
                            for k in set(res) & set(want):
                                tags, (ms, p) = meta.files.get(k, {}), want[k]
                                if not ck.expect("Exif.GPSInfo.GPSLatitude" in tags, "video-tags", "%s: %s has no position" % (what, k)):
                                    continue
                                ok, la, lo, al, di = decode(tags)
                                ck.expect(ok and abs(la - p[1]) < 1e-8 and angle_near(lo, p[2], 1e-8) and abs(al - p[3]) < 0.02 and tags["Exif.Photo.DateTimeOriginal"] == p[0]
                                          and tags["Exif.Image.Orientation"] == want_o, "video-tags", "%s: %s is at %r, %r instead of %r" % (what, k, (la, lo, al), tags, p))
                            ck.outcome((place, shift, how, rot, dx, dt, length, len(frames)))
                            for k in frames:
                                os.remove(k)


def update(ck, place):
    """bin/update_geotag: the positions of the reconstruction and no others, in the images or in copies"""
    from opensfm import dataset, geo, io, pygeometry, types as otypes
    lat, lon = PLACES[place]
    ref = geo.TopocentricConverter(lat, lon, 20.0)
    names = ["a.jpg", "b.JPG", "c.jpg"]
    spots = [(0.0, 0.0, 0.0), (120.0, -35.5, 4.25), (-7.0, 60.0, -31.0)]
    looks = [(0.0, 1.0, 0.0), (-1.0, -0.2, 0.1), (0.6, -0.9, -0.3)]
    for groups in ([], [[0]], [[0, 1]], [[2], [0]], [[1], [0, 2]]):
        for mode in ("default", "file"):
            for overwrite in (False, True):
                root = os.path.join(ck.scratch, "d")
                shutil.rmtree(root, ignore_errors=True)
                os.makedirs(os.path.join(root, "images"))
                g, meta = module()
                meta.files.clear()
                path = {}
                for i, n in enumerate(names):
                    path[n] = os.path.join(root, "images", n)
                    open(path[n], "wb").write(b"pixels %d" % i)
                    meta.files[path[n]] = {"Exif.Image.Make": n}
                data = dataset.DataSet(root)
                data.save_reference(ref)

                def build(groups, shift):
                    recs = []
                    for gr in groups:
                        rec = otypes.Reconstruction()
                        rec.reference = ref
                        cam = pygeometry.Camera.create_perspective(0.9, 0, 0)
                        cam.id, cam.width, cam.height = "c", 100, 80
                        rec.add_camera(cam)
                        for i in gr:
                            z = np.array(looks[i]) / np.linalg.norm(looks[i])
                            x = np.cross(z, [0, 0, 1.0])
                            x /= np.linalg.norm(x)
                            pose = pygeometry.Pose()
                            pose.set_rotation_matrix(np.array([x, np.cross(z, x), z]))
                            pose.set_origin(np.array(spots[i]) + shift)
                            rec.create_shot(names[i], "c", pose)
                        recs.append(rec)
                    return recs
                args = [root]
                data.save_reconstruction(build(groups if mode != "file" else [[0, 1, 2]], 0.0 if mode != "file" else 50.0))
                if mode == "file":
                    other = os.path.join(ck.scratch, "other.json")
                    with open(other, "w") as f:
                        io.json_dump(io.reconstructions_to_json(build(groups, 0.0)), f)
                    args += ["--reconstruction_file", other]
                if overwrite:
                    args.append("--overwrite_originals")
                what = "%r, %s, overwrite %s: " % (groups, mode, overwrite)
                old = sys.argv
                try:
                    sys.argv = ["update_geotag"] + args
                    quiet(runpy.run_path, os.path.join(boot.REPO, "bin", "update_geotag"), run_name="__main__")
                except (Exception, SystemExit) as e:
                    ck.fail("update-fails", what + repr(e))
                    continue
                finally:
                    sys.argv = old
                ck.ev()
                used = sorted(i for gr in groups for i in gr)
                out = {i: path[names[i]] if overwrite else os.path.join(root, "images_updated_geotag", names[i]) for i in used}
                have = {k for k, v in meta.files.items() if "Exif.GPSInfo.GPSLatitude" in v}
                ck.expect(have == set(out.values()), "update-files", what + "written %r" % sorted(have))
                for i, n in enumerate(names):
                    ck.expect(open(path[n], "rb").read() == b"pixels %d" % i and meta.files[path[n]]["Exif.Image.Make"] == n, "update-original", what + n)
                for i in used:
                    t = meta.files.get(out[i])
                    if t is None or out[i] not in have:
                        continue
                    ok, la, lo, al, di = decode(t)
                    want = ref.to_lla(*spots[i])
                    b = math.degrees(math.atan2(looks[i][0], looks[i][1])) % 360
                    ck.expect(ok and abs(la - want[0]) < 1e-8 and angle_near(lo, want[1], 1e-8) and abs(al - want[2]) < 0.0101 and angle_near(di, b, 0.0101)
                              and open(out[i], "rb").read() == b"pixels %d" % i, "update-tags", what + "%s is at %r instead of %r, %r" % (names[i], (la, lo, al, di), want, b))
                ck.outcome((place, str(groups), mode, overwrite))


def check(ck, case):
    {"interp": interp, "time": sample_time, "space": sample_space, "deg": deg, "bearing": bearings, "exif": exif, "gpx": gpx, "movie": movie, "update": update}[case[0]](ck, *case[1:])
