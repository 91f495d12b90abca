"""C27: the metadata of an image is what the EXIF and XMP tags of its file say, whichever are present."""
import datetime
import io
import itertools
import json
import math
import struct

import numpy as np
from opensfm import context, exif, geometry

LEVEL = "exploration"
RULE = ("files made of all combinations of present, absent and broken values within each group of tags (position, time, focal, size, "
        "make, orientation, projection, angles), both byte orders; non-trivial: distinct files")
ASSUMPTIONS = ["EXIF blocks are well formed: tags have the types of the EXIF standard", "the sub-seconds of the file date (SubSecTime) are not used"]

ASCII, SHORT, LONG, RATIO, BYTE, SRATIO = 2, 3, 4, 5, 1, 10
IFD0 = {"Make": (0x10F, ASCII), "Model": (0x110, ASCII), "Orientation": (0x112, SHORT), "DateTime": (0x132, ASCII),
        "ImageWidth": (0x100, LONG), "ImageLength": (0x101, LONG)}
EXIFD = {"DateTimeOriginal": (0x9003, ASCII), "DateTimeDigitized": (0x9004, ASCII), "OffsetTime": (0x9010, ASCII), "OffsetTimeOriginal": (0x9011, ASCII),
         "OffsetTimeDigitized": (0x9012, ASCII), "SubSecTimeOriginal": (0x9291, ASCII), "SubSecTimeDigitized": (0x9292, ASCII),
         "FocalLength": (0x920A, RATIO), "FocalLengthIn35mmFilm": (0xA405, SHORT), "ExifImageWidth": (0xA002, LONG), "ExifImageLength": (0xA003, LONG),
         "FocalPlaneXResolution": (0xA20E, RATIO), "FocalPlaneYResolution": (0xA20F, RATIO), "FocalPlaneResolutionUnit": (0xA210, SHORT),
         "LensMake": (0xA433, ASCII), "LensModel": (0xA434, ASCII)}
GPSD = {"LatitudeRef": (1, ASCII), "Latitude": (2, RATIO), "LongitudeRef": (3, ASCII), "Longitude": (4, RATIO), "AltitudeRef": (5, BYTE),
        "Altitude": (6, RATIO), "TimeStamp": (7, RATIO), "DOP": (11, RATIO), "Date": (0x1D, ASCII)}


def encode_ifd(entries, tiff_offset, order, tail):
    """(bytes of the directory, bytes of its data); data lies right after the directory"""
    n = len(entries)
    data_at = tiff_offset + 2 + 12 * n + 4
    head, data = struct.pack(order + "H", n), b""
    for tag, typ, val in sorted(entries):
        if typ == ASCII:
            raw, count = val.encode("latin-1") + b"\0", len(val) + 1
        elif typ in (RATIO, SRATIO):
            raw, count = b"".join(struct.pack(order + ("II" if typ == RATIO else "ii"), a, b) for a, b in val), len(val)
        else:
            raw, count = b"".join(struct.pack(order + {SHORT: "H", LONG: "I", BYTE: "B"}[typ], v) for v in val), len(val)
        head += struct.pack(order + "HHI", tag, typ, count)
        if len(raw) <= 4:
            head += raw.ljust(4, b"\0")
        else:
            head += struct.pack(order + "I", data_at + len(data))
            data += raw + (b"\0" if len(raw) % 2 else b"")
    return head + struct.pack(order + "I", tail) + data


def norm(table, tags):
    out = []
    for k, v in tags.items():
        if k in table and v is not None:
            tag, typ = table[k]
            if typ != ASCII and not isinstance(v, list):
                v = [v]
            out.append((tag, typ, v))
    return out


def jpeg(tags, gps=None, xmp=None, order="<", exif_block=True):
    b = b"\xff\xd8"
    if exif_block:
        e0, e1, e2 = norm(IFD0, tags), norm(EXIFD, tags), norm(GPSD, gps or {})
        ptr = ([(0x8769, LONG, [0])] if e1 else []) + ([(0x8825, LONG, [0])] if e2 else [])
        len0 = len(encode_ifd(e0 + ptr, 8, order, 0))
        at1 = 8 + len0
        d1 = encode_ifd(e1, at1, order, 0) if e1 else b""
        at2 = at1 + len(d1)
        d2 = encode_ifd(e2, at2, order, 0) if e2 else b""
        ptr = ([(0x8769, LONG, [at1])] if e1 else []) + ([(0x8825, LONG, [at2])] if e2 else [])
        tiff = (b"II*\0" if order == "<" else b"MM\0*") + struct.pack(order + "I", 8) + encode_ifd(e0 + ptr, 8, order, 0) + d1 + d2
        app = b"Exif\0\0" + tiff
        b += b"\xff\xe1" + struct.pack(">H", len(app) + 2) + app
    if xmp is not None:
        app = b"http://ns.adobe.com/xap/1.0/\0" + xmp
        b += b"\xff\xe1" + struct.pack(">H", len(app) + 2) + app
    return b + b"\xff\xda\0\x08\1\1\0\0\x3f\0\x12\x34\xff\xd9"


def read(blob, size=(480, 640), use_exif_size=True):
    f = io.BytesIO(blob)
    return exif.extract_exif_from_file(f, lambda: size, use_exif_size, name="x.jpg")


def cases(ck):
    out = [["gps", i] for i in range(len(LATS))] + [["dji", i] for i in range(3)]
    out += [["time", i] for i in range(len(GPST))] + [["focal", i] for i in range(len(F35) * len(MAKES))]
    out += [["size"], ["make"], ["misc"]] + [["opk", i] for i in range(len(YAW))]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


def go(ck, blob, what, **kw):
    ck.ev()
    ck.outcome((blob, tuple(sorted(kw.items()))))
    try:
        return read(blob, **kw)
    except Exception as e:  # noqa: BLE001
        ck.fail("raised:" + type(e).__name__, "%s: reading the metadata raised %s: %s" % (what, type(e).__name__, e))
        return None


# position -----------------------------------------------------------------------
D = 1
LATS = [None, [(47, 1), (30, 1), (18, 1)], [(0, 1), (0, 1), (0, 1)], [(33, 1), (512345, 10000), (0, 1)], [(90, 1), (0, 1), (0, 1)], [(12, 0), (1, 1), (1, 1)],
        [(12, 1), (1, 0), (1, 1)], [(12, 1), (1, 1), (1, 0)], [(4750505, 100000), (0, 1), (0, 1)]]
LONS = [None, [(8, 1), (15, 1), (59999, 1000)], [(180, 1), (0, 1), (0, 1)], [(0, 1), (1, 1), (1, 1)], [(8, 1), (0, 0), (1, 1)]]


def dec(v, neg):
    if v is None or any(d == 0 for _, d in v):
        return None
    x = v[0][0] / v[0][1] + v[1][0] / v[1][1] / 60 + v[2][0] / v[2][1] / 3600
    return -x if neg else x


def want_geo(lat, latref, lon, lonref, alt, altref, dop):
    w = {}
    la, lo = dec(lat, latref == "S"), dec(lon, lonref == "W")
    if la is not None and lo is not None:
        w["latitude"], w["longitude"] = la, lo
    if alt is not None and alt[1]:
        a = alt[0] / alt[1]
        w["altitude"] = min(1e4, -a if altref == 1 else a)
    if dop is not None and dop[1]:
        w["dop"] = dop[0] / dop[1]
    return w


def same(a, b):
    return set(a) == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in a)


def do_gps(ck, li):
    lat = LATS[li]
    for lon, latref, lonref, alt, altref, dop in itertools.product(
            LONS, (None, "N", "S"), (None, "E", "W"), (None, (1234, 10), (20000, 1), (5, 0), (0, 1)), (None, 0, 1), (None, (35, 10), (1, 0))):
        for order in "<>" if not ck.quick or lon is LONS[1] else "<":
            g = {"Latitude": lat, "LatitudeRef": latref, "Longitude": lon, "LongitudeRef": lonref, "Altitude": [alt] if alt else None, "AltitudeRef": altref, "DOP": [dop] if dop else None}
            what = "GPS tags %r" % {k: v for k, v in g.items() if v is not None}
            d = go(ck, jpeg({"Make": "m"}, g, order=order), what)
            if d is not None:
                want = want_geo(lat, latref, lon, lonref, alt, altref, dop)
                ck.expect(same(d["gps"], want), "gps", "%s: %r instead of %r" % (what, d["gps"], want))
                ck.expect("opk" not in d, "gps-opk", "%s: angles %r" % (what, d.get("opk")))


XMP = ('<?xpacket begin="" id="W5M0MpCehiHzreSzNTczkc9d"?>%s<x:xmpmeta xmlns:x="adobe:ns:meta/" x:xmptk="t">%s<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#">%s'
       '%s</rdf:RDF></x:xmpmeta><?xpacket end="w"?>')


def xmp(attrs=(), elems=(), nl="", more="", ns=("drone-dji", "Camera", "GPano"), text="a"):
    a = "".join('%s%s:%s="%s"' % (nl or " ", p, k, v) for p, k, v in attrs)
    e = "".join("%s<%s:%s>%s</%s:%s>" % (nl, p, k, v, p, k) for p, k, v in elems)
    x = "".join('%sxmlns:%s="http://example.com/%s/1.0/"' % (nl or " ", n, n) for n in ns)
    d = '<rdf:Description rdf:about="%s"%s%s>%s</rdf:Description>' % (text, x, a, e)
    return (XMP % (nl, nl, nl, d + more)).encode("utf-8")


def do_dji(ck, k):
    nl = ("", "\n  ", "\r\n")[k]
    for la, lo, al in itertools.product((None, "+47.5", "-33.25", "+0.0"), (None, "+8.125", "-151.5"), (None, "+12.5", "-3.0", "20000.0")):
        for egps in (False, True):
            for text in ("a", "caf\u00e9 & co".replace("&", "&amp;")):
                attrs = [("drone-dji", n, v) for n, v in (("Latitude", la), ("Longitude", lo), ("AbsoluteAltitude", al)) if v is not None]
                g = {"Latitude": [(1, 1), (2, 1), (3, 1)], "LatitudeRef": "S", "Longitude": [(4, 1), (5, 1), (6, 1)], "LongitudeRef": "W", "Altitude": [(7, 1)], "DOP": [(9, 1)]} if egps else {}
                what = "DJI attributes %r, EXIF position %r, text %r" % (attrs, egps, text)
                d = go(ck, jpeg({"Make": "DJI"}, g, xmp(attrs, nl=nl, text=text)), what)
                if d is None:
                    continue
                want = want_geo(g.get("Latitude"), "S", g.get("Longitude"), "W", (7, 1) if egps else None, None, (9, 1) if egps else None)
                if la is not None and lo is not None:
                    want["latitude"], want["longitude"] = float(la), float(lo)
                if al is not None:
                    want["altitude"] = min(1e4, float(al))
                ck.expect(same(d["gps"], want), "dji", "%s: %r instead of %r" % (what, d["gps"], want))


# time ---------------------------------------------------------------------------
GPST = [None, ("2018:03:04", [(10, 1), (20, 1), (30, 1)]), ("2018:03:04", [(10, 1), (20, 1), (30500, 1000)]), ("2018:03:04", [(10, 0), (20, 1), (30, 1)]),
        ("2018:03:04", [(10, 1), (20, 1), (30, 0)]), ("2018:13:04", [(10, 1), (20, 1), (30, 1)]), ("", [(10, 1), (20, 1), (30, 1)]), ("2018:03:04", None), (None, [(1, 1), (2, 1), (3, 1)]),
        ("1999:12:31", [(23, 1), (59, 1), (5975, 100)]), ("2018:03:04", [(10, 1), (20, 0), (30, 1)])]
STAMPS = [None, "2017:05:06 07:08:09", "2016:02:29 23:59:59", "0000:00:00 00:00:00", "2017-05-06 07:08:09", ""]
OFFS = [None, "+00:00", "+05:30", "-03:30", "-00:45", "+14:00", "-12:00", "junk", ""]
EPOCH = datetime.datetime(1970, 1, 1)


def want_time(gps, orig, osub, ooff, dig, dsub, doff, date, off):
    if gps and gps[0] and gps[1] and all(d for _, d in gps[1]):
        try:
            day = datetime.datetime.strptime(gps[0], "%Y:%m:%d")
            h, m, s = (a / b for a, b in gps[1])
            return (day - EPOCH).total_seconds() + 3600 * h + 60 * m + s
        except ValueError:
            pass
    for stamp, sub, o in ((orig, osub, ooff), (dig, dsub, doff), (date, None, off)):
        if stamp is None:
            continue
        try:
            t = (datetime.datetime.strptime(stamp, "%Y:%m:%d %H:%M:%S") - EPOCH).total_seconds()
        except ValueError:
            continue
        if sub is not None:
            if not sub.isdigit() or len(sub) > 6:
                continue
            t += float("0." + sub)
        if o and len(o) == 6 and o[3] == ":":
            sec = int(o[1:3]) * 3600 + int(o[4:6]) * 60
            t -= -sec if o[0] == "-" else sec
        return t
    return 0.0


def do_time(ck, gi):
    gps = GPST[gi]
    g = {"Date": gps[0], "TimeStamp": gps[1]} if gps else None
    offs = OFFS if not ck.quick else OFFS[:6] + OFFS[7:]
    combos = list(itertools.product(STAMPS, (None, "25", "001"), offs))
    empty = (None, None, None)
    valid = [c for c in combos if c[0] == STAMPS[1] or c[0] == STAMPS[3]]
    short = [empty, (STAMPS[2], "5", "+02:00"), (STAMPS[3], None, None), (STAMPS[2], None, "-01:30")]
    seqs = set()
    for o in combos:
        for d in short:
            seqs.add((o, d, short[1]))
            seqs.add((o, d, empty))
    for d in combos:
        seqs.add((empty, d, empty))
        seqs.add((short[2], d, short[1]))
        seqs.add((empty, empty, d))
        seqs.add((short[2], short[2], d))
    del valid
    for o, d, f in sorted(seqs, key=repr):
        tags = {"DateTimeOriginal": o[0], "SubSecTimeOriginal": o[1], "OffsetTimeOriginal": o[2], "DateTimeDigitized": d[0], "SubSecTimeDigitized": d[1],
                "OffsetTimeDigitized": d[2], "DateTime": f[0], "OffsetTime": f[2], "Make": "m"}
        what = "GPS time %r, tags %r" % (gps, {k: v for k, v in tags.items() if v is not None})
        got = go(ck, jpeg(tags, g), what)
        if got is not None:
            want = want_time(gps, *o, *d, f[0], f[2])
            ck.expect(abs(got["capture_time"] - want) < 1e-5, "time", "%s: %r instead of %r (difference %r s)" % (what, got["capture_time"], want, got["capture_time"] - want))


# focal and size -------------------------------------------------------------------
F35 = [None, 0, 28]
MAKES = [("Canon", "Canon PowerShot A480"), ("nobody", "knows"), (None, None), ("SONY ", " DSC-W90"), ("Acer", "CE-5330")]


def sensor_db():
    with open(context.SENSOR_DATA) as f:
        return {k.lower(): v for k, v in json.load(f).items()}


def do_focal(ck, i):
    f35, (make, model) = F35[i % len(F35)], MAKES[i // len(F35)]
    db = sensor_db()
    name = ((make or "unknown").strip() + " " + (model or "unknown").replace(make or "unknown", "" if make else "unknown").strip()).strip().lower()
    n = 0
    for fl, xr, yr, unit, w in itertools.product((None, (50, 10), (0, 1), (4, 0)), (None, (4000, 1), (0, 1), (3, 0)), (None, (3000, 1), (0, 1)), (None, 1, 2, 3, 4, 5), (4000, 1999)):
        tags = {"Make": make, "Model": model, "FocalLengthIn35mmFilm": f35, "FocalLength": [fl] if fl else None, "FocalPlaneXResolution": [xr] if xr else None,
                "FocalPlaneYResolution": [yr] if yr else None, "FocalPlaneResolutionUnit": unit, "ExifImageWidth": w, "ExifImageLength": 1000}
        what = "tags %r" % {k: v for k, v in tags.items() if v is not None}
        d = go(ck, jpeg(tags, order="<>"[n % 2]), what)
        n += 1
        if d is None:
            continue
        if f35:
            want = f35 / 36.0
        else:
            width = None
            mm = {2: 25.4, 3: 10.0, 4: 1.0, 5: 0.001}.get(unit)
            if mm and xr and xr[1]:
                r = xr[0] / xr[1]
                if r <= 0:
                    r = yr[0] / yr[1] if yr and yr[1] else 0
                if r > 0:
                    width = w / r * mm
            if not width:
                width = db.get(name)
            want = fl[0] / fl[1] / width if width and fl and fl[1] and fl[0] else 0.0
        ck.expect(abs(d["focal_ratio"] - want) < 1e-9 * max(1, want), "focal", "%s: focal ratio %r instead of %r" % (what, d["focal_ratio"], want))
        cid = " ".join(["v2", (make or "unknown").strip(), (model or "unknown").replace(make or "\0", "").strip(), str(w), "1000", "perspective", str(float(want))[:6]]).lower()
        ck.expect(d["camera"] == cid, "camera-id", "%s: camera %r instead of %r" % (what, d["camera"], cid))


def do_size(ck):
    for ew, eh, iw, ih, use in itertools.product((None, 100, 3000), (None, 50, 2000), (None, 77), (None, 33), (True, False)):
        for loader in ((480, 640), (1, 7)):
            tags = {"Make": "m", "ExifImageWidth": ew, "ExifImageLength": eh, "ImageWidth": iw, "ImageLength": ih}
            what = "tags %r, use_exif_size %r, pixels %r" % ({k: v for k, v in tags.items() if v is not None}, use, loader)
            d = go(ck, jpeg(tags), what, size=loader, use_exif_size=use)
            if d is None:
                continue
            want = (ew, eh) if use and ew and eh else (iw, ih) if use and iw and ih else (loader[1], loader[0])
            ck.expect((d["width"], d["height"]) == want, "size", "%s: %r" % (what, (d["width"], d["height"])))
    d = go(ck, jpeg({}, exif_block=False), "no EXIF at all")
    if d is not None:
        ck.expect((d["width"], d["height"], d["make"], d["model"], d["orientation"], d["gps"], d["capture_time"], d["focal_ratio"], d["projection_type"]) ==
                  (640, 480, "unknown", "unknown", 1, {}, 0.0, 0.0, "perspective"), "no-exif", "without EXIF: %r" % d)


def do_make(ck):
    for make, model, lmake, lmodel in itertools.product((None, "Canon", "NIKON CORPORATION", " x "), (None, "Canon EOS", "D3", "Mo Del"), (None, "Zeiss"), (None, "Zeiss Lens 5")):
        for orient in (None, 0, 1, 2, 3, 6, 8):
            tags = {"Make": make, "Model": model, "LensMake": lmake, "LensModel": lmodel, "Orientation": orient}
            what = "tags %r" % {k: v for k, v in tags.items() if v is not None}
            d = go(ck, jpeg(tags), what)
            if d is None:
                continue
            mk, md = lmake or make or "unknown", lmodel or model or "unknown"
            ck.expect(d["make"].strip() == mk.strip() and d["model"].strip() == md.strip(), "make", "%s: make %r, model %r" % (what, d["make"], d["model"]))
            ck.expect(d["orientation"] == (orient or 1), "orientation", "%s: orientation %r" % (what, d["orientation"]))
            cid = " ".join(["v2", mk.strip(), (md.replace(mk, "") if mk != "unknown" else md).strip(), "640", "480", "perspective", "0.0"]).lower()
            ck.expect(d["camera"].split() == cid.split(), "make-id", "%s: camera %r instead of %r" % (what, d["camera"], cid))


def do_misc(ck):
    """projection types in XMP, however the XMP is written"""
    other = '<rdf:Description rdf:about="" xmlns:y="http://example.com/y" y:z="1"/>'
    for pt in (None, "equirectangular", "fisheye", "cylindrical"):
        for form in ("element", "attribute"):
            for nl in ("", "\n", "\r\n    "):
                for more in ("", other):
                    for text in ("", "\u4e2d\u6587", "it's"):
                        item = [("GPano", "ProjectionType", pt)] if pt else []
                        x = xmp(item if form == "attribute" else [], item if form == "element" else [("GPano", "UsePanoramaViewer", "True")], nl, more, text=text)
                        what = "projection %r as %s, separator %r, %s description, text %r" % (pt, form, nl, "second" if more else "one", text)
                        d = go(ck, jpeg({"Make": "m"}, None, x), what)
                        if d is not None:
                            ck.expect(d["projection_type"] == (pt or "perspective"), "projection", "%s: %r" % (what, d["projection_type"]))
    for broken in (b"<x:xmpmeta", b"<x:xmpmeta xmlns:x='a'><a></b></x:xmpmeta>", b"<x:xmpmeta xmlns:x='a'><rdf:RDF xmlns:rdf='b'><rdf:Description/></rdf:RDF></x:xmpmeta>"[:60], b"</x:xmpmeta>"):
        d = go(ck, jpeg({"Make": "m"}, None, broken), "broken XMP %r" % broken)
        if d is not None:
            ck.expect(d["projection_type"] == "perspective" and d["make"] == "m", "broken-xmp", "broken XMP %r: %r" % (broken, d))


# angles ---------------------------------------------------------------------------
YAW = [0, 30, 90, 135, 180, -90, -160.5, 270]
PITCH = [0, 10, 45, 89.9, 90, -20, 120]
ROLL = [0, 15, -30, 180]


def rotate(v, axis, deg):
    """right-handed rotation of v about a unit axis"""
    a = math.radians(deg)
    axis, v = np.asarray(axis, float), np.asarray(v, float)
    return v * math.cos(a) + np.cross(axis, v) * math.sin(a) + axis * axis.dot(v) * (1 - math.cos(a))


def camera_axes(y, p, r):
    """right, down and forward of the camera in east, north, up: a nadir camera, top to the north,
    turned by the yaw about down, then pitched up about its right, then rolled about its top"""
    right, top, fwd = np.array([1.0, 0, 0]), np.array([0, 1.0, 0]), np.array([0, 0, -1.0])
    right, top, fwd = (rotate(v, (0, 0, -1), y) for v in (right, top, fwd))
    right, top, fwd = (rotate(v, right, p) for v in (right, top, fwd))
    right, top, fwd = (rotate(v, top, r) for v in (right, top, fwd))
    return right, -top, fwd


def do_opk(ck, yi):
    y = YAW[yi]
    for p, r, kind, lat, lon in itertools.product(PITCH, ROLL, ("camera", "dji", "both", "bad", "part"), (47.5, 0.0, -33.0), (8.0, -120.0)):
        attrs = []
        if kind in ("camera", "both"):
            attrs += [("Camera", "Yaw", y), ("Camera", "Pitch", p), ("Camera", "Roll", r)]
        if kind in ("dji", "both", "bad", "part"):
            q = 5 if kind == "both" else 0
            attrs += [("drone-dji", "GimbalYawDegree", "north" if kind == "bad" else "%+.2f" % (y + q)), ("drone-dji", "GimbalPitchDegree", "%+.2f" % (p - 90 + q)),
                      ("drone-dji", "GimbalRollDegree", "%+.2f" % (r + q))][:2 if kind == "part" else 3]
        for pos in (True, False):
            if not pos and (lat or lon > 0):
                continue
            at = attrs + ([("drone-dji", "Latitude", "%+.4f" % lat), ("drone-dji", "Longitude", "%+.4f" % lon)] if pos else [])
            what = "yaw, pitch, roll %r (%s) at %r" % ((y, p, r), kind, (lat, lon) if pos else None)
            d = go(ck, jpeg({"Make": "m"}, None, xmp(at)), what)
            if d is None:
                continue
            if kind in ("bad", "part") or not pos:
                ck.expect("opk" not in d, "opk-none", "%s: angles %r" % (what, d.get("opk")))
                continue
            if not ck.expect("opk" in d, "opk-missing", "%s: no angles" % what):
                continue
            o = d["opk"]
            if not ck.expect(all(math.isfinite(o[k]) for k in ("omega", "phi", "kappa")), "opk-finite", "%s: %r" % (what, o)):
                continue
            R = geometry.rotation_from_opk(*(math.radians(o[k]) for k in ("omega", "phi", "kappa")))
            want = np.array(camera_axes(y, p, r))
            ck.expect(np.allclose(R, want, atol=1e-6), "opk", "%s: right, down, forward are\n%r\ninstead of\n%r" % (what, R.round(4).tolist(), want.round(4).tolist()))
