"""C33: the statistics and the report say what the reconstruction, the tracks and the reports of the stages contain."""
import glob
import itertools
import json
import math
import os
import re
import shutil
import zlib

import numpy as np
from opensfm import dataset, feature_loader, features, geo, pygeometry, pymap, stats, types
from opensfm.actions import compute_statistics, export_report

LEVEL = "exploration"
RULE = ("all assignments of errors to observations, of lengths to points, of positions to shots, of report files to stages, of features, "
        "cameras, rigs, GPS and control points to images and of images to reconstructions within the bounds, each statistic against its "
        "formula; statistics and report files written for datasets with each kind of part missing; non-trivial: distinct inputs")
ASSUMPTIONS = ["an image is in one reconstruction and sees a point of it; errors within 1e-9 of the 4 pixels may go either way",
               "cameras and rig cameras of reconstructions are in the files of initial values"]
W, H, F = 640, 480, 0.9
PX = [None, 0.0, 1.0, 3.99, 4.01, 30.0]
REF = (46.5, 7.25, 400.0)


def camera(cid, kind="perspective", k1=0.0):
    if kind == "spherical":
        c = pygeometry.Camera.create_spherical()
        c.width, c.height = 800, 400
    else:
        c = pygeometry.Camera.create_perspective(F, k1, 0.0)
        c.width, c.height = (H, W) if kind == "portrait" else (W, H)
    c.id = cid
    return c


def proj(kind, p):
    x, y, z = p
    if kind == "spherical":
        return np.array([math.atan2(x, z) / (2 * math.pi), math.atan2(y, math.hypot(x, z)) / (2 * math.pi)])
    return np.array([F * x / z, F * y / z])


def ray(kind, u):
    if kind == "spherical":
        lon, lat = u[0] * 2 * math.pi, -u[1] * 2 * math.pi
        return np.array([math.cos(lat) * math.sin(lon), -math.sin(lat), math.cos(lat) * math.cos(lon)])
    v = np.array([u[0] / F, u[1] / F, 1.0])
    return v / np.linalg.norm(v)


def folder(ck, name, images=("i0.jpg", "i1.jpg", "i2.jpg", "i3.jpg")):
    d = os.path.join(ck.scratch, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "images"))
    for i in images:
        open(os.path.join(d, "images", i), "wb").close()
    with open(os.path.join(d, "config.yaml"), "w") as f:
        f.write("processes: 1\nresection_min_inliers: 1\n")
    data = dataset.DataSet(d)
    for i in images:
        data.save_exif(i, {"camera": "cam", "width": W, "height": H, "orientation": 1})
    data.save_reference(geo.TopocentricConverter(*REF))
    return data


def near(a, b, tol=1e-9):
    return abs(a - b) <= tol * max(1, abs(b))


def cases(ck):
    out = [["errors", k, n, first] for k in ("perspective", "portrait", "spherical", "both") for n in (1, 2, 3 if ck.quick else 4) for first in range(len(PX)) if k != "portrait" or n < 3]
    out += [["lengths", n, a] for n in (0, 1, 2, 3 if ck.quick else 5) for a in range(5)]
    out += [["area", n, a] for n in (0, 1, 2, 3 if ck.quick else 4) for a in range(len(SPOTS))]
    out += [["steps", a] for a in range(len(TIMES))]
    out += [["feats", a] for a in range(len(COUNTS))]
    out += [["models", a] for a in range(8)] + [["rigs", a] for a in range(8)]
    out += [["gps", a] for a in (0, 1, 2, 3, 5, 6)] + [["gcp", a] for a in range(len(SEEN))]
    out += [["decimate"]] + [["graph", a] for a in range(8)]
    names = sorted(SETS)
    out += [["full", n] for n in names]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


# ------------------------------------------------------------------ reprojection errors
def do_errors(ck, kind, n, first):
    if n == 4 and kind != "both":
        n = 3
    scales = [0.001, 0.004]
    data = folder(ck, "e")
    dirs = [(3 / 5, 4 / 5), (-1.0, 0.0), (0.0, 1.0), (12 / 13, -5 / 13)]
    pts = [(0.3, -0.2, 4.0), (-1.0, 0.5, 6.0), (0.2, 0.9, 3.0), (0.5, 0.1, 9.0)]
    for rest in itertools.product(range(len(PX)), repeat=n - 1):
        offs = [PX[i] and PX[i] * (1 + 0.0003 * j) for j, i in enumerate((first,) + rest)]
        for two in ((False, True) if kind != "both" else (True,)):
            recs = [types.Reconstruction()]
            if two:
                recs.append(types.Reconstruction())
            kinds = [kind if kind != "both" else ["perspective", "spherical"][i] for i in range(len(recs))]
            tm = pymap.TracksManager()
            want = []
            for i, rec in enumerate(recs):
                rec.add_camera(camera("cam", kinds[i]))
                rec.create_shot("i%d.jpg" % i, "cam", pygeometry.Pose(np.array([0.1, -0.2, 0.3 + i]), np.array([0.5, 0, 0.1])))
            for j, off in enumerate(offs):
                i = j % len(recs)
                shot = recs[i].shots["i%d.jpg" % i]
                R, t = shot.pose.get_rotation_matrix(), np.array(shot.pose.translation)
                X = R.T @ (np.array(pts[j]) - t)
                size = 800 if kinds[i] == "spherical" else W
                u = proj(kinds[i], pts[j]) + np.array(dirs[j]) * (off or 0) / size
                s = scales[j % 2]
                if off is not None:
                    recs[i].create_point("t%d" % j, X)
                    a, b = ray(kinds[i], u), np.array(pts[j]) / np.linalg.norm(pts[j])
                    ang = math.atan2(np.linalg.norm(np.cross(a, b)), a @ b)
                    if off < 4:
                        want.append((off / size / s, off, ang))
                # a point that is not reconstructed still is a track
                tm.add_observation("i%d.jpg" % i, "t%d" % j, pymap.Observation(u[0], u[1], s, 1, 2, 3, j))
            got = stats.reconstruction_statistics(data, tm, recs)
            tag = [kind, offs, two]
            ck.ev()
            ck.outcome(tag)
            for a, name in enumerate(("normalized", "pixels", "angular")):
                avg = got["reprojection_error_" + name]
                hist, bins = got["reprojection_histogram_" + name]
                if not want:
                    ck.expect(avg == -1 and list(hist) == [] and list(bins) == [], "error-none", "%s error without observation" % name, [tag, avg])
                    continue
                vals = [w[a] for w in want]
                tol = 2e-7 if name == "angular" else 1e-9
                ck.expect(abs(avg - sum(vals) / len(vals)) < tol * max(1, max(vals)), "error-average",
                          "average %s error %r instead of %r" % (name, avg, sum(vals) / len(vals)), tag)
                ck.expect(len(hist) == 30 and len(bins) == 31 and sum(hist) == len(vals), "error-histogram", "%s histogram counts %r errors of %d" % (name, sum(hist), len(vals)), tag)
                cum = 0
                for c, e in zip(hist, bins[1:]):
                    cum += c
                    lo, hi = sum(v < e - 3 * tol for v in vals), sum(v <= e + 3 * tol for v in vals)
                    if not lo <= cum <= hi:
                        ck.fail("error-histogram", "%s histogram wrong below %r" % (name, e), tag)
                        break
                if name != "angular" and max(vals) > min(vals):
                    ck.expect(near(bins[0], min(vals)) and near(bins[-1], max(vals)), "error-histogram", "bins do not span the errors", tag)
        ck.beat()


# ------------------------------------------------------------------ lengths of tracks
def do_lengths(ck, n, first):
    data = folder(ck, "l")
    images = ["s%d" % i for i in range(6)]
    # number of observations of a point; in the map, or only in the tracks
    kinds = [(2, 1), (3, 1), (2, 0), (4, 0), (5, 1)]
    rest = itertools.combinations_with_replacement(range(len(kinds)), max(0, n - 1))
    for more in rest:
        pts = [kinds[k] for k in ((first,) + more)[:n]]
        for split in range(n + 1):
            recs = [types.Reconstruction(), types.Reconstruction()]
            tm = pymap.TracksManager()
            lengths = []
            for i, rec in enumerate(recs):
                rec.add_camera(camera("cam"))
            for i, im in enumerate(images):
                recs[0].create_shot(im, "cam")
                recs[1].create_shot("b" + im, "cam")
            for j, (length, inmap) in enumerate(pts):
                rec, pre = (recs[0], "") if j < split else (recs[1], "b")
                rec.create_point("t%d" % j, np.array([0, 0, 5.0]))
                for im in images[:length]:
                    ob = pymap.Observation(0.1, 0.1, 0.004, 1, 2, 3, j)
                    tm.add_observation(pre + im, "t%d" % j, ob)
                    if inmap:
                        rec.add_observation(pre + im, "t%d" % j, ob)
                lengths.append(length)
            for extra in (0, 2):
                for e in range(extra):
                    tm.add_observation(images[e], "x%d" % e, pymap.Observation(0.1, 0.1, 0.004, 1, 2, 3, 90 + e))
                got = stats.reconstruction_statistics(data, tm, recs)
                tag = [pts, split, extra]
                ck.ev()
                ck.outcome(tag)
                over = [x for x in lengths if x > 2]
                ck.expect(got["components"] == 2 and got["reconstructed_points_count"] == n and got["initial_points_count"] == n + extra
                          and got["reconstructed_shots_count"] == 12 and got["initial_shots_count"] == 4 and not got["has_gps"] and not got["has_gcp"],
                          "counts", "counts of points, tracks, shots or components wrong", [tag, got])
                ck.expect(got["observations_count"] == sum(lengths), "observations", "number of observations %r" % got["observations_count"], tag)
                ck.expect(near(got["average_track_length"], sum(lengths) / n if n else -1), "average-length", "average length %r" % got["average_track_length"], tag)
                ck.expect(near(got["average_track_length_over_two"], sum(over) / len(over) if over else -1), "average-length-over-two",
                          "average length of points in more than two images %r of %r" % (got["average_track_length_over_two"], lengths), tag)
                hist = {int(k): int(v) for k, v in got["histogram_track_length"].items()}
                ck.expect(hist == {x: lengths.count(x) for x in set(lengths)}, "length-histogram", "histogram of lengths %r" % hist, tag)


# ------------------------------------------------------------------ area, times
SPOTS = [(0, 0), (10, 5), (-20, 3), (7.5, -8), (-1, -1), (1000, 2000)]


def rec_at(places, prefix="i", cam="cam"):
    rec = types.Reconstruction()
    rec.add_camera(camera(cam))
    for i, (x, y) in enumerate(places):
        p = pygeometry.Pose(np.array([0.3, 0.1 * i, -0.2]))
        p.set_origin(np.array([x, y, 3.0 + i]))
        rec.create_shot("%s%d.jpg" % (prefix, i), cam, p)
    return rec


def do_area(ck, n, first):
    data = folder(ck, "a")
    for rest in itertools.product(range(len(SPOTS)), repeat=max(0, n - 1)):
        places = [SPOTS[i] for i in ((first,) + rest)[:n]]
        for split in range(n + 1):
            got = stats.processing_statistics(data, [rec_at(places[:split]), rec_at(places[split:], "j")])
            xs, ys = [p[0] for p in places], [p[1] for p in places]
            want = (max(xs) - min(xs)) * (max(ys) - min(ys)) if places else -1
            ck.ev()
            ck.outcome([places, split])
            ck.expect(abs(got["area"] - want) < 1e-6 * max(1, want), "area", "area %r of cameras at %r" % (got["area"], places), [places, split])
    ck.expect(stats.processing_statistics(data, [])["area"] == -1, "area", "area without reconstruction")


TIMES = [None, {"wall_time": 0}, {"wall_time": 12.5}, {"wall_times": {"a": 1.5, "b": 2.25, "c": 0}}, {"wall_times": {}}, {"other": 3}]
STEPS = [("Feature Extraction", "features.json"), ("Features Matching", "matches.json"), ("Tracks Merging", "tracks.json"), ("Reconstruction", "reconstruction.json")]


def do_steps(ck, first):
    for rest in itertools.product(range(len(TIMES)), repeat=3):
        data = folder(ck, "s", ("i0.jpg",))
        want = {}
        for k, (name, f) in zip((first,) + rest, STEPS):
            t = TIMES[k]
            if t is not None:
                data.save_report(json.dumps(t), f)
            want[name] = -1 if t is None or "other" in t else t["wall_time"] if "wall_time" in t else sum(t["wall_times"].values())
        want["Total Time"] = sum(v for v in want.values() if v > 0)
        withrec = (sum(rest) + first) % 2
        if withrec:
            data.save_reconstruction([rec_at([(0, 0)])])
            os.utime(os.path.join(data.data_path, "reconstruction.json"), (1.6e9, 1.6e9 + 7))
        got = stats.processing_statistics(data, [])
        ck.ev()
        ck.outcome([first, rest])
        ck.expect(got["steps_times"] == want, "times", "step times %r instead of %r" % (got["steps_times"], want), [first, rest])
        import datetime
        date = datetime.datetime.fromtimestamp(1600000007).strftime("%d/%m/%Y at %H:%M:%S") if withrec else "unknown"
        ck.expect(got["date"] == date, "date", "date %r instead of %r" % (got["date"], date), [first, rest])


# ------------------------------------------------------------------ features
COUNTS = [0, 1, 2, 5, 7]


def do_feats(ck, first):
    for rest in itertools.product(range(len(COUNTS)), repeat=3):
        counts = [COUNTS[k] for k in (first,) + rest]
        data = folder(ck, "f")
        feature_loader.instance.clear_cache()
        for i, c in enumerate(counts):
            if c is not None:
                data.save_features("i%d.jpg" % i, features.FeaturesData(np.zeros((c, 4)), np.zeros((c, 3), np.uint8), np.zeros((c, 3)), None))
        for used in ((0, 1, 2), (3,), (1, 3), ()):
            recs = [rec_at([]), rec_at([])]
            for i in used:
                recs[i % 2].create_shot("i%d.jpg" % i, "cam")
            tm = pymap.TracksManager()
            seen = {}
            for i in range(4):
                for t in range(i + 2):       # tracks of image i, the first of them not reconstructed
                    tm.add_observation("i%d.jpg" % i, "t%d" % t, pymap.Observation(0, 0, 0.004, 1, 2, 3, t))
            for r in range(2):
                for t in range(1, 5):
                    if (t + r) % 3:
                        recs[r].create_point("t%d" % t, np.array([0, 0, 1.0]))
            for i in used:
                seen[i] = sum(1 for t in range(1, i + 2) if (t + i % 2) % 3)
            det = [counts[i] for i in used if counts[i] is not None]
            rec = [seen[i] for i in used if seen[i]]
            got = stats.features_statistics(data, tm, recs)
            ck.ev()
            ck.outcome([counts, used])
            for name, v in (("detected_features", det), ("reconstructed_features", rec)):
                want = {"min": min(v), "max": max(v), "mean": int(sum(v) / len(v)), "median": int(median(v))} if v else dict.fromkeys(("min", "max", "mean", "median"), -1)
                ck.expect({k: got[name].get(k) for k in want} == want, name, "%s %r instead of %r" % (name, got[name], want), [counts, used])
        ck.beat()


def median(v):
    v = sorted(v)
    k = len(v) // 2
    return v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2


def do_graph(ck, a):
    """lines of the match graph: two images of one reconstruction sharing enough of its points"""
    import matplotlib.figure
    import matplotlib.pyplot as plt
    from opensfm import io
    names = ["i%d.jpg" % i for i in range(4)]
    seen = {0: (0, 1, 2, 3), 1: (0, 1), 2: (0, 1, 3), 3: (1, 2, 3), 4: (2, 3), 5: (0, 2), 6: (0, 1, 2)}
    data = folder(ck, "g")
    save = matplotlib.figure.Figure.savefig
    for part in itertools.product((0, 1), repeat=3):
        for least in (1, 2):
            where = dict(zip(names, (0,) + part))
            recs = [types.Reconstruction(), types.Reconstruction()]
            pts = [set(), set()]
            for i, n in enumerate(names):
                rec = recs[where[n]]
                rec.add_camera(camera("cam"))
                rec.create_shot(n, "cam", pygeometry.Pose(np.array([0.1 * i, 0.2, -0.1]), np.zeros(3)))
                rec.shots[n].pose.set_origin(np.array([1.0 + i * i, 2.0 * i - 0.3 * i ** 3, 5.0 + i]))
            tm = pymap.TracksManager()
            for t, who in seen.items():
                for i in who:
                    tm.add_observation(names[i], "t%d" % t, pymap.Observation(0.1, 0.1, 0.004, 1, 2, 3, t))
                if t != a:      # a track that is no point
                    recs[t % 2].create_point("t%d" % t, np.array([0, 0, 1.0]))
                    pts[t % 2].add("t%d" % t)
            data.config["resection_min_inliers"] = least
            figs = []

            def spy(fig, *args, **kw):
                figs.append([(l.get_linestyle(), np.array(l.get_xydata())) for ax in fig.axes for l in ax.lines]
                            + [("-", np.array(seg)) for ax in fig.axes for c in ax.collections if hasattr(c, "get_segments") for seg in c.get_segments()])
            matplotlib.figure.Figure.savefig = spy
            try:
                stats.save_matchgraph(data, tm, recs, ck.scratch, io.IoFilesystemDefault())
            finally:
                matplotlib.figure.Figure.savefig = save
                plt.close("all")
            allpts = pts[0] | pts[1]
            want, dots = set(), set()
            xy = lambda n: tuple(np.round(recs[where[n]].shots[n].pose.get_origin()[:2], 6))
            for n1, n2 in itertools.combinations(names, 2):
                k = sum(1 for t, who in seen.items() if "t%d" % t in allpts and int(n1[1]) in who and int(n2[1]) in who)
                if where[n1] == where[n2] and k >= 2 * least:
                    want.add(frozenset((xy(n1), xy(n2))))
            lines, points = set(), set()
            for style, d in (figs[0] if figs else []):
                d = [tuple(np.round(v, 6)) for v in d]
                if len(d) == 2:
                    lines.add(frozenset(d))
                elif style in ("", "None", " ", "none"):
                    points |= set(d)
            tag = [a, part, least]
            ck.ev()
            ck.outcome(tag)
            ck.expect(len(figs) == 1 and lines == want, "graph", "lines %r of the match graph instead of %r" % (sorted(map(sorted, lines)), sorted(map(sorted, want))), tag)
            ck.expect(points in (set(), {xy(n) for n in names}), "graph", "images drawn at %r" % sorted(points), tag)
    ck.beat()


# ------------------------------------------------------------------ cameras and rigs
def do_models(ck, mask):
    """mask: which of three cameras are used by the first and by the second reconstruction"""
    ids = ["a", "b/c", "v2 spherical"]
    for mask2, sizes in itertools.product(range(8), ((0, 0), (1, 2), (2, 1), (3, 3))):
        data = folder(ck, "m")
        init = {}
        for k, i in enumerate(ids):
            init[i] = camera(i, "spherical" if k == 2 else "perspective")
            if k < 2:
                init[i].focal = 0.5 + k
        data.save_camera_models(init)
        recs, want = [], {}
        for r, (m, n) in enumerate(zip((mask, mask2), sizes)):
            rec = types.Reconstruction()
            for k, i in enumerate(ids):
                if m >> k & 1:
                    c = camera(i, "spherical" if k == 2 else "perspective", 0.01 * r)
                    if k < 2:
                        c.focal = 0.6 + k + 0.1 * r
                    rec.add_camera(c)
                    rec.set_bias(i, pygeometry.Similarity(np.array([0.1 * k, 0, 0.2]), np.array([1.0, r, k]), 1 + 0.5 * r))
            ks = [k for k in range(3) if m >> k & 1]
            for s in range(n):
                if ks:
                    rec.create_shot("r%ds%d.jpg" % (r, s), ids[ks[s % len(ks)]])
            recs.append(rec)
        order = sorted(range(2), key=lambda r: -len(recs[r].shots))
        for k, i in enumerate(ids):
            for r in order:
                if (mask, mask2)[r] >> k & 1:
                    want[i] = r
                    break
        got = stats.cameras_statistics(data, recs)
        ck.ev()
        ck.outcome([mask, mask2, sizes])
        if not ck.expect(set(got) == set(want), "camera-list", "cameras %r instead of %r" % (sorted(got), sorted(want)), [mask, mask2, sizes]):
            continue
        tie = len(recs[0].shots) == len(recs[1].shots)
        for k, i in enumerate(ids):
            if i not in want:
                continue
            ok = []
            for r in ((0, 1) if tie and mask & mask2 & 1 << k else (want[i],)):
                a, b = ({"focal": 0.5 + k, "k1": 0.0, "k2": 0.0}, {"focal": 0.6 + k + 0.1 * r, "k1": 0.01 * r, "k2": 0.0}) if k < 2 else ({}, {})
                bias = got[i]["bias"]
                ok.append(same(got[i]["initial_values"], a) and same(got[i]["optimized_values"], b) and near(bias["scale"], 1 + 0.5 * r)
                          and np.allclose(bias["translation"], [1, r, k]) and np.allclose(bias["rotation"], [0.1 * k, 0, 0.2]))
            ck.expect(any(ok), "camera-values", "values of camera %s: %r" % (i, got[i]), [mask, mask2, sizes])


def same(got, want):
    got = {k: v for k, v in got.items() if k != "none"}
    return set(got) == set(want) and all(near(got[k], want[k]) for k in want)


def do_rigs(ck, mask):
    ids = ["left", "right", "cam"]       # the last one is the rig camera made for a camera without rig
    for mask2, sizes in itertools.product(range(8), ((0, 0), (1, 2), (2, 1), (3, 3))):
        data = folder(ck, "r")
        data.save_camera_models({"cam": camera("cam")})
        data.save_rig_cameras({i: pymap.RigCamera(pygeometry.Pose(np.array([0, 0.1 * k, 0]), np.array([1.0 + k, 0, 0])), i) for k, i in enumerate(ids)})
        recs = []
        for r, (m, n) in enumerate(zip((mask, mask2), sizes)):
            rec = rec_at([(s, 0) for s in range(n)], "r%ds" % r)
            for k, i in enumerate(ids[:2]):
                if m >> k & 1:
                    rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.array([0.01 * r, 0.1 * k, 0]), np.array([1.0 + k, 0.5 + r, 0])), i))
            if m >> 2 & 1:
                rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(), "cam"))
            recs.append(rec)
        got = stats.rig_statistics(data, recs)
        order = sorted(range(2), key=lambda r: -sizes[r])
        want = {}
        for k, i in enumerate(ids[:2]):
            rs = [r for r in order if (mask, mask2)[r] >> k & 1]
            if rs:
                want[i] = [r for r in rs if sizes[r] == sizes[rs[0]]]
        ck.ev()
        ck.outcome([mask, mask2, sizes])
        if not ck.expect(set(got) == set(want), "rig-list", "rig cameras %r instead of %r" % (sorted(got), sorted(want)), [mask, mask2, sizes]):
            continue
        for k, i in enumerate(ids[:2]):
            if i in want:
                a, b = got[i]["initial_values"], got[i]["optimized_values"]
                ck.expect(np.allclose(a["rotation"], [0, 0.1 * k, 0]) and np.allclose(a["translation"], [1.0 + k, 0, 0])
                          and any(np.allclose(b["rotation"], [0.01 * r, 0.1 * k, 0]) and np.allclose(b["translation"], [1.0 + k, 0.5 + r, 0]) for r in want[i]),
                          "rig-values", "values of rig camera %s: %r" % (i, got[i]), [mask, mask2, sizes])


# ------------------------------------------------------------------ GPS and control points
def summary(errs):
    n = len(errs)
    out = {"mean": {}, "std": {}, "error": {}, "average_error": sum(math.sqrt(sum(v * v for v in e)) for e in errs) / n}
    for k, c in enumerate("xyz"):
        m = sum(e[k] for e in errs) / n
        out["mean"][c] = m
        out["std"][c] = math.sqrt(sum((e[k] - m) ** 2 for e in errs) / n)
        out["error"][c] = math.sqrt(sum(e[k] ** 2 for e in errs) / n)
    return out


def cmp_summary(ck, got, errs, key, tag, tol=1e-9):
    if not errs:
        return ck.expect(got == {}, key, "errors without data: %r" % got, tag)
    want = summary(errs)
    ok = set(want) <= set(got) and near(got["average_error"], want["average_error"], tol) and all(
        near(got[a][c], want[a][c], tol) for a in ("mean", "std", "error") for c in "xyz")
    return ck.expect(ok, key, "errors %r instead of %r" % (got, want), tag)


def do_gps(ck, biases):
    offs = [None, (0, 0, 0), (1.5, -2, 0.25), (-3, 0.5, 10)]
    data = folder(ck, "g")
    for ks in itertools.product(range(len(offs)), repeat=4):
        recs = [rec_at([(0, 0), (5, 1)], "i", "cam"), rec_at([(-7, 2), (3, 3)], "j", "cam")]
        errs, count = [], 0
        for r, rec in enumerate(recs):
            # gps positions go through the bias of the camera before they are compared
            th, tr, sc = [(0.0, (0.0, 0.0, 0.0), 1.0), (0.3, (1.0, 2.0, -3.0), 2.0), (0.0, (1.0, 2.0, -3.0), 1.0),
                          (0.3, (0.0, 0.0, 0.0), 1.0)][(biases >> r & 1) + 2 * (biases >> 2)]
            rec.set_bias("cam", pygeometry.Similarity(np.array([0, 0, th]), np.array(tr), sc))
            for i, sid in enumerate(sorted(rec.shots)):
                off = offs[ks[2 * r + i]]
                if off is None:
                    continue
                count += 1
                o = np.array(rec.shots[sid].pose.get_origin())
                want = np.array(off, float)
                target = o - want                       # where the transformed gps position has to be
                d = (target - np.array(tr)) / sc
                c, s = math.cos(-th), math.sin(-th)
                rec.shots[sid].metadata.gps_position.value = np.array([c * d[0] - s * d[1], s * d[0] + c * d[1], d[2]])
                errs.append(off)
        ck.ev()
        ck.outcome([biases, ks])
        cmp_summary(ck, stats.gps_errors(recs), errs, "gps", [biases, ks])
        got = stats.reconstruction_statistics(data, pymap.TracksManager(), recs)
        ck.expect(bool(got["has_gps"]) == (count > 2), "has-gps", "has_gps %r with %d positions" % (got["has_gps"], count), [biases, ks])


# which shots of the two reconstructions see a control point, and whether it has a position
SEEN = [(s, lla) for s in ((), ("i0",), ("i0", "i1"), ("j0", "j1"), ("i0", "j1"), ("i0", "i1", "j0", "j1")) for lla in (True, False)]


def do_gcp(ck, first):
    ref = geo.TopocentricConverter(*REF)
    offs = [(0.0, 0.0, 0.0), (0.5, -1.0, 2.0), (-0.25, 0.125, 0.0)]
    spots = [(1.0, 2.0, -4.0), (-3.0, 1.5, -6.0), (2.0, -2.0, -5.0)]
    for n, rest in [(0, ())] + [(1 + len(r), r) for k in (0, 1) for r in itertools.product(range(len(SEEN)), repeat=k)] + [(3, (2, 6)), (3, (4, 7))]:
        data = folder(ck, "c")
        recs = []
        for pre in "ij":
            rec = types.Reconstruction()
            rec.add_camera(camera("cam"))
            for i in range(2):
                p = pygeometry.Pose(np.array([math.pi, 0, 0]))        # looks down
                p.set_origin(np.array([4.0 * i - 2, 1.0 if pre == "i" else -1.0, 10.0]))
                rec.create_shot("%s%d.jpg" % (pre, i), "cam", p)
            recs.append(rec)
        pts, errs = [], []
        for j, k in enumerate(((first,) + rest)[:n]):
            seen, lla = SEEN[k]
            X = np.array(spots[j])
            obs = []
            for s in seen:
                shot = recs["ij".index(s[0])].shots[s + ".jpg"]
                R, t = shot.pose.get_rotation_matrix(), np.array(shot.pose.translation)
                u = proj("perspective", R @ X + t)
                obs.append({"shot_id": s + ".jpg", "projection": list(u)})
            d = {"id": "g%d" % j, "observations": obs}
            if lla:
                la, lo, al = ref.to_lla(*(X - np.array(offs[j])))
                d["position"] = {"latitude": la, "longitude": lo, "altitude": al}
            pts.append(d)
            if lla and (len([s for s in seen if s[0] == "i"]) > 1 or len([s for s in seen if s[0] == "j"]) > 1):
                errs.append(offs[j])
        with open(os.path.join(data.data_path, "ground_control_points.json"), "w") as f:
            json.dump({"points": pts}, f)
        ck.ev()
        ck.outcome([first, rest, n])
        cmp_summary(ck, stats.gcp_errors(data, recs), errs, "gcp", [first, rest, n], 1e-5)
        got = stats.reconstruction_statistics(data, pymap.TracksManager(), recs)
        ck.expect(bool(got["has_gcp"]) == (n > 0), "has-gcp", "has_gcp %r with %d control points" % (got["has_gcp"], n), [first, rest])


def do_decimate(ck):
    for n1, n2, m in itertools.product(range(6), range(4), range(0, 7)):
        recs = []
        for n in (n1, n2):
            rec = rec_at([(0, 0), (1, 0)])
            for t in range(n):
                rec.create_point("t%d" % t, np.array([t, 1, 2.0]))
                for s in range(2):
                    rec.add_observation("i%d.jpg" % s, "t%d" % t, pymap.Observation(0.1 * t, 0, 0.004, 1, 2, 3, t))
            recs.append(rec)
        stats.decimate_points(recs, m)
        ck.ev()
        ck.outcome([n1, n2, m])
        for rec, n in zip(recs, (n1, n2)):
            keep = set(rec.points)
            ck.expect(len(keep) == min(n, m) and keep <= {"t%d" % t for t in range(n)} and len(rec.shots) == 2, "decimate", "%d points of %d, at most %d" % (len(keep), n, m))
            for p in rec.points.values():
                ck.expect(p.number_of_observations() == 2 and p.coordinates[0] == int(p.id[1:]), "decimate", "kept point %s changed" % p.id)


# ------------------------------------------------------------------ the commands
BASE = dict(recs=[(3, "cam")], points=6, gps=3, gcp=0, features=True, matches=True)
SETS = {
    "plain": {}, "two-cameras": dict(recs=[(3, "cam"), (2, "other")]), "slash": dict(recs=[(2, "v2 x/y 640"), (2, "cam")]),
    "spherical": dict(recs=[(3, "pano")]), "nogps": dict(gps=0), "onegps": dict(gps=1), "gcp": dict(gcp=2), "nogps-gcp": dict(gps=0, gcp=2),
    "gcp-unseen": dict(gcp=1), "one-shot": dict(recs=[(1, "cam")], gps=1), "nopoints": dict(points=0), "onepoint": dict(points=1),
    "separate": dict(matches=False), "none": dict(recs=[]), "rig": dict(rig=True), "still": dict(still=True), "line": dict(line=True),
    "unused-camera": dict(unused=True), "decimated": dict(decimate=2), "far-errors": dict(off=50.0),
    "same-start": dict(recs=[(2, "cam 0.9"), (2, "cam 0.95"), (2, "cam 0.9 5")]), "trailing": dict(slash=True),
    "three": dict(recs=[(2, "cam"), (3, "other"), (1, "pano")]), "thin": dict(recs=[(3, "thin")]),
    "tall": dict(recs=[(3, "tall")]),
}


def build(ck, opt, name):
    o = dict(BASE, **opt)
    images, recs, tm = [], [], pymap.TracksManager()
    cams = {}
    for r, (n, cid) in enumerate(o["recs"]):
        images += ["r%d_%d.jpg" % (r, i) for i in range(n)]
    data = folder(ck, name, images + ["left over.jpg"])
    ref = geo.TopocentricConverter(*REF)
    gps, track = o["gps"], 0
    gcps = []
    for r, (n, cid) in enumerate(o["recs"]):
        rec = types.Reconstruction()
        rec.reference = ref
        kind = "spherical" if cid == "pano" else "perspective"
        cam = camera(cid, kind)
        if cid == "thin":
            cam.width, cam.height = 640, 64
        if cid == "tall":
            cam.width, cam.height = H, W
        cams[cid] = cam
        rec.add_camera(cam)
        if o.get("unused"):
            rec.add_camera(camera("unused"))
            cams["unused"] = camera("unused")
        if o.get("rig"):
            rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.array([0, 0.1, 0]), np.array([0.5, 0, 0])), "left"))
        for i in range(n):
            sid = "r%d_%d.jpg" % (r, i)
            p = pygeometry.Pose(np.array([math.pi, 0, 0]))
            x, y = (0, 0) if o.get("still") else (3.0 * i - 10 * r, 0.0 if o.get("line") else 2.0 * (i % 2) - 4)
            if o.get("line") == "y":
                x, y = y, x
            p.set_origin(np.array([x, y, 10.0]))
            if o.get("rig"):
                rec.add_rig_instance(pymap.RigInstance("inst%d" % i))
                s = rec.create_shot(sid, cid, rig_camera_id="left", rig_instance_id="inst%d" % i)
                s.rig_instance.pose = p
            else:
                s = rec.create_shot(sid, cid, p)
            if gps > 0:
                s.metadata.gps_position.value = np.array([x + (0.5 if o.get('line') != 'y' else 0), y - (0 if o.get("line") or o.get("still") else 0.25), 10.0])
                gps -= 1
            s.metadata.capture_time.value = 100.0 - i
            tm.add_observation(sid, "alone%d%d" % (r, i), pymap.Observation(0, 0, 0.004, 1, 2, 3, 99))
        for j in range(o["points"]):
            X = np.array([1.0 * j - 3 - 10 * r, 0.7 * (j % 3) - 4, 1.0 + 0.2 * j])
            tid = "t%d" % track
            track += 1
            rec.create_point(tid, X)
            rec.points[tid].color = [10 * j, 20, 30]
            for i in range(n):
                if not o["matches"] and i != j % n:
                    continue
                sid = "r%d_%d.jpg" % (r, i)
                sh = rec.shots[sid]
                q = sh.pose.get_rotation_matrix() @ X + np.array(sh.pose.translation)
                u = proj(kind, q) + np.array([0.3 * j - 0.7 + o.get("off", 0), 0.2 * i]) / max(cam.width, cam.height)
                ob = pymap.Observation(u[0], u[1], 0.004, 50, 100, 150, j)
                tm.add_observation(sid, tid, ob)
                rec.add_observation(sid, tid, ob)
        if r == 0:
            for g in range(o["gcp"]):
                X = np.array([0.5 * g, -3.5, 1.0])
                obs = []
                for i in range(n if name != "gcp-unseen" else 1):
                    sh = rec.shots["r0_%d.jpg" % i]
                    u = proj(kind, sh.pose.get_rotation_matrix() @ X + np.array(sh.pose.translation))
                    obs.append({"shot_id": sh.id, "projection": list(u)})
                la, lo, al = ref.to_lla(*(X + [0.1, 0.2, -0.3]))
                gcps.append({"id": "g%d" % g, "observations": obs, "position": {"latitude": la, "longitude": lo, "altitude": al}})
        recs.append(rec)
    if o["gcp"]:
        with open(os.path.join(data.data_path, "ground_control_points.json"), "w") as f:
            json.dump({"points": gcps}, f)
    data.save_camera_models(cams)
    data.save_rig_cameras({"left": pymap.RigCamera(pygeometry.Pose(np.array([0, 0.2, 0]), np.array([0.6, 0, 0])), "left")} if o.get("rig") else {})
    if o["features"]:
        for i, im in enumerate(images):
            data.save_features(im, features.FeaturesData(np.zeros((5 + i, 4)), np.zeros((5 + i, 3), np.uint8), np.zeros((5 + i, 3)), None))
    data.save_tracks_manager(tm)
    data.save_reconstruction(recs)
    data.save_report(json.dumps({"wall_time": 12.345}), "features.json")
    return data, o, recs, tm


def pdf_text(path):
    out = []
    raw = open(path, "rb").read()
    for m in re.finditer(rb"stream\r?\n(.*?)\r?\nendstream", raw, re.S):
        try:
            s = zlib.decompressobj().decompress(m.group(1))
        except zlib.error:
            continue
        for line in s.split(b"\n") if s.lstrip()[:200].count(b"\n") and b" Tf" in s else []:
            for t in re.findall(rb"\(((?:\\.|[^\\)])*)\) ?Tj", line):
                out.append(re.sub(rb"\\(.)", rb"\1", t).decode("latin-1"))
    return out


def do_full(ck, name):
    import warnings
    warnings.filterwarnings("ignore")
    feature_loader.instance.clear_cache()
    data, o, recs, tm = build(ck, SETS[name], name)
    ck.ev()
    ck.outcome(name)
    tag = name
    path = data.data_path + ("/" if o.get("slash") else "")
    quivers, maps = [], []
    plt = stats.plt
    quiver, imshow = plt.quiver, plt.imshow
    plt.quiver = lambda u, v, *a, **k: quivers.append((np.array(u), np.array(v))) or quiver(u, v, *a, **k)
    plt.imshow = lambda im, *a, **k: maps.append(np.array(im)) or imshow(im, *a, **k)
    try:
        compute_statistics.run_dataset(dataset.DataSet(path), o.get("decimate", -1))
    except Exception as e:
        import traceback
        ck.fail("statistics-fail", "compute_statistics fails: %s: %s" % (type(e).__name__, e), [tag, traceback.format_exc()[-600:]])
        return
    finally:
        plt.quiver, plt.imshow = quiver, imshow
        plt.close("all")
    ck.beat()
    sdir = os.path.join(data.data_path, "stats")
    have = set(os.listdir(sdir))
    st = json.load(open(os.path.join(sdir, "stats.json")))
    want = {"stats.json", "matchgraph.png", "residual_histogram.png", "topview.png"}
    for n, cid in o["recs"]:
        want.add("heatmap_%s.png" % cid.replace("/", "_"))
        if o["points"] and o.get("off", 0) < 4:
            want.add("residuals_%s.png" % cid.replace("/", "_"))
    if not o["recs"]:
        want -= {"topview.png", "matchgraph.png"}
    ck.expect(want <= have, "files", "missing: %r" % sorted(want - have), tag)
    import PIL.Image
    for f in have:
        if f.endswith(".png"):
            im = PIL.Image.open(os.path.join(sdir, f))
            im.load()
            ck.expect(im.size[0] > 50, "files", "image %s is empty" % f, tag)
    # statistics
    ref = dataset.DataSet(data.data_path)
    full = stats.compute_all_statistics(ref, ref.load_tracks_manager(), ref.load_reconstruction())
    ck.expect(json.loads(json.dumps(full)) == st or name in NANS, "stats-file", "stats.json differs from the statistics", tag)
    rs = st["reconstruction_statistics"]
    shots = sum(n for n, _ in o["recs"])
    npts = o["points"] * len(o["recs"])
    ck.expect(rs["reconstructed_shots_count"] == shots and rs["initial_shots_count"] == shots + 1 and rs["components"] == len(o["recs"])
              and rs["reconstructed_points_count"] == npts and rs["initial_points_count"] == npts + shots, "counts", "counts wrong in stats.json", [tag, rs])
    ck.beat()
    plots(ck, o, recs, tm, quivers, maps, tag)
    # the report
    import fpdf
    shown, image = [], fpdf.FPDF.image
    fpdf.FPDF.image = lambda self, name, *a, **k: shown.append(os.path.basename(name)) or image(self, name, *a, **k)
    try:
        export_report.run_dataset(dataset.DataSet(path))
    except Exception as e:
        import traceback
        ck.fail("report-fail", "export_report fails: %s: %s" % (type(e).__name__, e), [tag, traceback.format_exc()[-600:]])
        return
    finally:
        fpdf.FPDF.image = image
    for f in sorted(have):
        if f.endswith(".png") and not f.startswith("heatmap"):
            ck.expect(shown.count(f) == 1, "report-images", "image %s is %d times in the report" % (f, shown.count(f)), [tag, shown])
    ck.expect(sum(f.startswith("heatmap") for f in shown) == min(1, len(o["recs"])), "report-images", "no heatmap in the report", [tag, shown])
    pdf = os.path.join(sdir, "report.pdf")
    ck.expect(open(pdf, "rb").read(5) == b"%PDF-", "report", "report.pdf is no PDF", tag)
    text = pdf_text(pdf)
    need = ["OpenSfM Quality Report", "Dataset Summary", "Processing Summary", "Features Details", "Reconstruction Details", "Tracks Details",
            "GPS/GCP Errors Details", "Processing Time Details", "Camera Models Details", os.path.basename(data.data_path), "12.35 seconds" if False else "12.35 sec.",
            "%d over %d shots (%.1f%%)" % (shots, shots + 1, 100 * shots / (shots + 1))]
    if npts + shots:
        need.append("%d over %d points (%.1f%%)" % (npts, npts + shots, 100 * npts / (npts + shots)))
    if o["gps"] and rs["has_gps"]:
        need += ["GPS" if not o["gcp"] or name == "gcp-unseen" else "GPS and GCP", "%.3f" % st["gps_errors"]["average_error"]]
    if o["gcp"] and name != "gcp-unseen":
        need += ["%.3f" % st["gcp_errors"]["mean"]["x"], "%.3f" % st["gcp_errors"]["error"]["z"]]
    if npts:
        for n, cid in o["recs"]:
            need.append(cid)
        if o.get("off", 0) < 4:
            need += ["Initial", "Optimized", "%.4f" % F] if any(c != "pano" for n, c in o["recs"]) else []
        need.append("%.2f images" % rs["average_track_length"])
    if o.get("rig"):
        need += ["Rig Cameras Details", "0.6000 m", "0.5000 m", "0.2000"]
    missing = [t for t in need if t not in text]
    ck.expect(not missing, "report-text", "not in the report: %r" % missing, [tag, text[:60]])


def plots(ck, o, recs, tm, quivers, maps, tag):
    """residual grids and heatmaps against the observations of each camera"""
    grids, heats = [], []
    cids = []
    for rec in recs:
        cids += [c for c in rec.cameras if c not in cids]
    decimated = o.get("decimate", 0) > 0
    for cid in cids:
        cam = [rec.cameras[cid] for rec in recs if cid in rec.cameras][0]
        w, h, size = cam.width, cam.height, max(cam.width, cam.height)
        sph = cam.projection_type == "spherical"
        cells, spots = {}, []
        for rec in recs:
            for sid, shot in rec.shots.items():
                if shot.camera.id != cid:
                    continue
                for tid, ob in tm.get_shot_observations(sid).items():
                    if tid not in rec.points:
                        continue
                    q = shot.pose.get_rotation_matrix() @ rec.points[tid].coordinates + np.array(shot.pose.translation)
                    err = np.array(ob.point) - proj("spherical" if sph else "perspective", q)
                    px = np.array(ob.point) * size + [w / 2, h / 2]
                    gx, gy = (80, 40) if sph else (40, 40)
                    hx, hy = (1000, 500) if sph else (500, int(500 / w * h))
                    spots.append((min(max(int(px[0] * hx / w), 0), hx - 1), min(max(int(px[1] * hy / h), 0), hy - 1)))
                    if np.linalg.norm(err) * size <= 4:
                        cells.setdefault((min(max(int(px[1] * gy / h), 0), gy - 1), min(max(int(px[0] * gx / w), 0), gx - 1)), []).append(err / ob.scale)
        heats.append((hy, hx, spots) if spots else ((500, 1000, []) if sph else (int(500 / w * h), 500, [])))
        if cells:
            grids.append(((40, 80) if sph else (40, 40), {k: sum(v) / len(v) for k, v in cells.items()}))
    if not ck.expect(len(quivers) == len(grids), "plots", "%d residual grids for %d cameras with errors" % (len(quivers), len(grids)), tag):
        return
    for shape, cells in grids:
        ok = False
        for u, v in quivers:
            want = np.zeros(shape + (2,))
            for k, e in cells.items():
                want[k] = e
            if u.shape != shape:
                continue
            got = np.stack([u, v], 2)
            f = np.sum(got * want) / np.sum(want * want)       # arrows may have any scale
            ok = ok or (f > 0 and np.allclose(got, f * want, atol=1e-3 * f))
        ck.expect(ok, "residual-grid", "no residual grid shows the average errors of a camera", [tag, str(cells)[:300]])
    if decimated:
        return
    heat = [m for m in maps if m.ndim == 2]
    if not ck.expect(len(heat) == len(heats), "plots", "%d heatmaps for %d cameras" % (len(heat), len(heats)), tag):
        return
    for hy, hx, spots in heats:
        ok = False
        for m in heat:
            if m.shape != (hy, hx):
                continue
            far = np.ones(m.shape, bool)
            for x, y in spots:
                far[max(0, y - 16):y + 17, max(0, x - 16):x + 17] = False
            good = all(m[y, x] > 0 for x, y in spots if x < hx - 1 and y < hy - 1)
            ok = ok or not spots or (good and not np.any(m[far] > 0))
        ck.expect(ok, "heatmap", "no heatmap shows the observations of a camera", [tag, str(spots)[:200]])


NANS = set()
