"""C26: undistortion gives perspective views of the same world: shots, points, observations and pixels."""
import itertools
import json
import math
import os
import shutil

import cv2
import numpy as np
from opensfm import dataset, features, pygeometry, pymap, types, undistort
from opensfm.actions import undistort as action

import c13
from bascene import REF, look, pose
from scene import rod

LEVEL = "exploration"
RULE = ("all camera models and grids of their parameters x image shapes x interpolations: every pixel of the undistorted image against the "
        "place of its ray in the source by the written-out formula; six views of panoramas likewise; all sequences of up to three shots of "
        "all camera kinds x rigs x images missing x tracks x formats; files on disk for all kinds of images, masks and segmentations, "
        "sequentially and in parallel; non-trivial: distinct inputs")
ASSUMPTIONS = ["pixels whose ray falls within a pixel of the border of the source may take either side; nearest-neighbour choices within "
               "1/32 pixel of a tie may go either way; bearings are asked for where the distortion is invertible (see C13)",
               "no two images of a dataset get the same undistorted name by adding the extension"]
ONE = ["perspective", "brown", "fisheye", "fisheye_opencv", "fisheye62"]
PANO = ["spherical", "equirectangular"]
SKIPPED = ["fisheye624", "radial", "simple_radial", "dual"]
SIZES = [(36, 24), (24, 36), (25, 25), (37, 26)]
VIEWS = ["front", "left", "back", "right", "top", "bottom"]


def camera(kind, par, cid, size):
    c = c13.make("spherical" if kind in PANO else kind, *par)
    c.id = cid
    c.width, c.height = size
    return c


class Data:
    def __init__(self, images, **cfg):
        self.names = list(images)
        self.config = {"undistorted_image_format": "png", "depthmap_resolution": 16, "processes": 1, "undistorted_image_max_size": 100000}
        self.config.update(cfg)

    def images(self):
        return self.names


class Out:
    """stand-in of the undistorted dataset: what is saved"""

    def save_undistorted_reconstruction(self, r):
        self.rec = r

    def save_undistorted_tracks_manager(self, t):
        self.tracks = t

    def save_undistorted_shot_ids(self, d):
        self.ids = d


def single(cam, R=np.eye(3), c=(0, 0, 0), **cfg):
    rec = types.Reconstruction()
    rec.add_camera(cam)
    rec.create_shot("a.png", cam.id, pose(R, c))
    out = Out()
    got = undistort.undistort_reconstruction(None, rec, Data(["a.png"], **cfg), out)
    return rec.shots["a.png"], got["a.png"], out, rec


def source_pixel(kind, par, focal, w, h, u, v):
    """where pixel (u, v) of the undistorted view, center of the image in the middle between the pixels, is in the source"""
    m = max(w, h)
    X = ((u - (w - 1) / 2) / m / focal, (v - (h - 1) / 2) / m / focal, 1.0)
    p = c13.project(kind, *par, X)
    return p[0] * m + (w - 1) / 2, p[1] * m + (h - 1) / 2


def cases(ck):
    out = []
    for k in ONE:
        n = len(c13.params(k, ck.quick))
        out += [["pixels", k, i, s] for i in range(n) for s in range(len(SIZES)) if not ck.quick or i % (7 if k == "fisheye62" else 3) == s % 3]
    out += [["scale", i] for i in range(len(SIZES))]
    out += [["pano", i, w, f] for i in range(6 if ck.quick else 12) for w in ((12, 17) if ck.quick else (12, 16, 17, 24, 41)) for f in (1, 2, 3)]
    ks = ONE + ["spherical", "radial", "dual"]
    seqs = [[k] for k in ONE + PANO + SKIPPED] + [list(s) for s in itertools.product(ONE + PANO + SKIPPED, repeat=2)]
    seqs += [list(s) for s in itertools.product(["perspective", "brown", "spherical", "radial"] if ck.quick else ks, repeat=3)]
    out += [["shots", s] for s in seqs]
    out += [["files", i] for i in range(len(FILES))]
    return out


def check(ck, case):
    globals()[case[0]](ck, *case[1:])


def pixels(ck, kind, i, s):
    par = c13.params(kind, ck.quick)[i]
    w, h = SIZES[s]
    cam = camera(kind, par, "c", (w * 10, h * 10))
    shot, subs, out, _ = single(cam)
    ck.expect(len(subs) == 1 and subs[0].id == "a.png", "one-view", "%s: %r" % (kind, [x.id for x in subs]))
    new = subs[0].camera
    f = new.focal
    ck.expect(new.projection_type == "perspective" and new.k1 == 0 and new.k2 == 0, "no-distortion", "%s: %s k1=%g k2=%g" % (kind, new.projection_type, new.k1, new.k2))
    fs = [par[0], par[0] * par[1]]
    ck.expect(min(fs) - 1e-12 <= f <= max(fs) + 1e-12, "focal", "%s: focal %g of %r" % (kind, f, fs))
    ck.expect((new.width, new.height, new.id) == (w * 10, h * 10, "c"), "camera", "%s: %r" % (kind, (new.width, new.height, new.id)))
    vs, us = np.mgrid[0:h, 0:w]
    ramp = np.dstack([us, vs, us * 0 + 7]).astype(np.float32)
    label = ((us * 7 + vs * 13) % 251 + 1).astype(np.uint8)
    img = undistort.undistort_image(shot, subs, ramp, cv2.INTER_AREA, 1000)
    lab = undistort.undistort_image(shot, subs, label, cv2.INTER_NEAREST, 1000)
    ck.expect(set(img) == {"a.png"} and set(lab) == {"a.png"} and img["a.png"].shape == (h, w, 3) and lab["a.png"].shape == (h, w) and lab["a.png"].dtype == np.uint8,
              "shape", "%s: %r %r" % (kind, {k: v.shape for k, v in img.items()}, {k: v.shape for k, v in lab.items()}))
    img, lab = img["a.png"], lab["a.png"]
    for v in range(h):
        for u in range(w):
            x, y = source_pixel(kind, par, f, w, h, u, v)
            ck.ev()
            d = min(x, y, w - 1 - x, h - 1 - y)
            what = "%s %r %dx%d pixel (%d, %d)" % (kind, par, w, h, u, v)
            if d > 0.02:
                g = img[v, u]
                ck.expect(abs(g[0] - x) < 0.025 and abs(g[1] - y) < 0.025 and g[2] == 7, "pixel", "%s: from %r instead of (%g, %g)" % (what, g.tolist(), x, y))
                near = {int(label[b, a]) for a in {round(x - .03), round(x + .03)} for b in {round(y - .03), round(y + .03)}}
                ck.expect(int(lab[v, u]) in near, "nearest", "%s: label %d instead of %r" % (what, lab[v, u], near))
            elif d < -1.02:
                ck.expect(not img[v, u].any() and lab[v, u] == 0, "outside", "%s: %r, label %d instead of nothing" % (what, img[v, u].tolist(), lab[v, u]))
    ck.outcome((kind, i, s))
    ck.expect(undistort.undistort_image(shot, subs, None, cv2.INTER_AREA, 1000) == {}, "none", "an image that does not exist gave something")


def scale(ck, s):
    """max_size: never larger, never enlarged, same proportions, every value from its place"""
    w, h = SIZES[s]
    shot, subs, _, _ = single(camera("perspective", (0.8, 1, (0, 0), (0.0, 0.0), 0.5), "c", (w, h)))
    vs, us = np.mgrid[0:h, 0:w]
    ramp = np.dstack([us, vs]).astype(np.float32)
    for ms in range(4, max(w, h) + 6):
        out = undistort.undistort_image(shot, subs, ramp, cv2.INTER_NEAREST, ms)["a.png"]
        ck.ev()
        if ms >= max(w, h):
            ck.expect(out.shape == ramp.shape and np.array_equal(out, ramp), "enlarged", "%dx%d max %d: %r" % (w, h, ms, out.shape))
            continue
        k = ms / max(w, h)
        ck.expect(max(out.shape[:2]) == ms and abs(out.shape[0] - h * k) <= 0.5 and abs(out.shape[1] - w * k) <= 0.5, "max-size",
                  "%dx%d max %d: %r" % (w, h, ms, out.shape))
        H, W = out.shape[:2]
        for b, a in itertools.product(range(H), range(W)):
            x, y = (a + 0.5) * w / W - 0.5, (b + 0.5) * h / H - 0.5
            ck.expect(abs(out[b, a, 0] - x) <= 1 + w / W / 2 and abs(out[b, a, 1] - y) <= 1 + h / H / 2, "scaled",
                      "%dx%d max %d at (%d, %d): %r" % (w, h, ms, a, b, out[b, a].tolist()))
        ck.outcome((s, ms))


TURNS = [(0, 0, 0), (0.3, 0, 0), (0, 0, 1.1), (0.4, -0.8, 0.2), (2.5, 0.7, -1.0), (0, math.pi, 0), (1, 1, 1), (-0.2, 2.9, 0.4), (0, -1.57, 0), (1.57, 0, 0), (0.9, -2, 0), (0, 0, 3.14)]


def pano(ck, i, width, factor):
    """the six views of a panorama look at its center, between them everywhere, and see what it shows there"""
    R, c = rod(TURNS[i]), (3.0, -2.0, 1.5)
    W = 4 * width * factor if factor != 3 else 4 * width - 6
    cam = camera("spherical", (1, 1, (0, 0), (), 0.5), "p", (W, W // 2))
    shot, subs, out, _ = single(cam, R, c, depthmap_resolution=width)
    ck.expect(sorted(x.id for x in subs) == sorted("a.png_perspective_view_%s.png" % n for n in VIEWS), "views", "%r" % [x.id for x in subs])
    H = W // 2
    vs, us = np.mgrid[0:H, 0:W]
    lon, lat = (us + 0.5 - W / 2) / W * 2 * np.pi, (vs + 0.5 - H / 2) / W * 2 * np.pi
    rays = np.dstack([np.cos(lat) * np.sin(lon), np.sin(lat), np.cos(lat) * np.cos(lon)])
    img = undistort.undistort_image(shot, subs, (128 + 100 * rays).astype(np.float32), cv2.INTER_AREA, 1000)
    lab_src = ((us // (W // 8)) % 8 + 8 * (vs // (H // 4)) + 1).astype(np.uint8)
    lab = undistort.undistort_image(shot, subs, lab_src, cv2.INTER_NEAREST, 1000)
    ck.expect(set(img) == {x.id for x in subs} == set(lab), "view-images", "%r" % sorted(img))
    seen = []
    for sub in subs:
        n = sub.camera
        ck.expect(n.projection_type == "perspective" and n.k1 == 0 and n.k2 == 0 and n.width == n.height == width and abs(n.focal - 0.5) < 1e-12, "view-camera",
                  "%s: %s %g %d %d" % (sub.id, n.projection_type, n.focal, n.width, n.height))
        ck.expect(np.allclose(sub.pose.get_origin(), c, atol=1e-9), "view-center", "%s at %r" % (sub.id, sub.pose.get_origin()))
        V = sub.pose.get_rotation_matrix()
        seen.append(R @ V.T @ [0, 0, 1])
        im, lb = img[sub.id], lab[sub.id]
        ck.expect(im.shape[:2] == (width, width) and lb.shape == (width, width), "view-size", "%r" % (im.shape,))
        for v, u in itertools.product(range(width), range(width)):
            d = np.array([(u - (width - 1) / 2) / width / 0.5, (v - (width - 1) / 2) / width / 0.5, 1.0])
            d = R @ V.T @ (d / np.linalg.norm(d))
            ck.ev()
            tol = 100 * 2.2 * (2 * math.pi / min(W, 4 * width)) ** 2 + 2.0 + (110 * 2 * math.pi / min(W, 4 * width) if factor == 3 or abs(d[1]) > 0.9 else 0)
            got = (im[v, u] - 128) / 100
            ck.expect(np.abs(got - d).max() * 100 < tol, "view-pixel", "%s pixel (%d, %d): looks %r and shows %r" % (sub.id, u, v, d.tolist(), got.tolist()))
            # labels: any label within 1.5 source pixels
            lo, la = math.atan2(d[0], d[2]), math.asin(max(-1, min(1, d[1])))
            x, y = lo / (2 * math.pi) * W + (W - 1) / 2, la / (2 * math.pi) * W + (H - 1) / 2
            r = 1.6 * max(1, W / (4 * width))
            rx = r / max(0.02, math.cos(la)) if abs(d[1]) > 0.8 else r
            ok = {int(lab_src[min(max(int(round(b)), 0), H - 1), int(round(a)) % W]) for b in np.arange(y - r, y + r + .4, 0.5) for a in np.arange(x - min(rx, W / 2), x + min(rx, W / 2) + .4, 0.5)}
            ck.expect(int(lb[v, u]) in ok, "view-label", "%s pixel (%d, %d): label %d instead of %r" % (sub.id, u, v, lb[v, u], ok))
    axes = {tuple(np.round(s).astype(int)) for s in seen}
    ck.expect(len(axes) == 6 and all(np.abs(np.round(s) - s).max() < 1e-9 for s in seen), "coverage", "views look along %r" % [s.tolist() for s in seen])
    ck.outcome((i, width, factor))


def point_cloud():
    g = [(x, y, z) for x in (-4, -1.3, 0.4, 3.1) for y in (-3.3, 0.2, 2.6) for z in (-3.8, 0.3, 2.7)]
    return {"t%d" % i: np.array(p, float) + np.array([0.013, 0.027, -0.031]) * (i % 5) for i, p in enumerate(g)}


DIST = {"k1": -0.06, "k2": 0.02, "k3": -0.01, "k4": 0.004, "k5": -0.002, "k6": 0.001, "p1": 0.003, "p2": -0.002, "s0": 0.002, "s1": -0.001, "s2": -0.002, "s3": 0.001}


def kpar(kind):
    if kind in PANO:
        return (1.0, 1.0, (0.0, 0.0), (), 0.5)
    aff = kind in c13.AFFINE
    return (0.33 if kind.startswith("fisheye") else 0.7, 1.04 if aff else 1.0, (0.01, -0.02) if aff else (0.0, 0.0), tuple(DIST[n] for n in c13.NAMES[kind]), 0.5)


def visible(kind, par, X):
    """where the camera sees a point of its frame, None if it does not"""
    if kind in PANO:
        return c13.project("spherical", *par, X)
    if kind.startswith("fisheye"):  # nearly everything in front of the camera
        if X[2] <= 0.05 * np.linalg.norm(X):
            return None
    elif X[2] <= 0.05 * np.linalg.norm(X) or math.hypot(X[0], X[1]) > 0.9 * X[2]:
        return None
    p = c13.project(kind, *par, X)
    return p if abs(p[0]) < 0.5 and abs(p[1]) < 0.4 else None


def world(kinds, rig, seen_all):
    rec = types.Reconstruction()
    rec.reference = REF
    pts = point_cloud()
    tm = pymap.TracksManager()
    info = {}
    for j, k in enumerate(kinds):
        cam = camera(k, kpar(k), "cam_%s" % k, (640, 512) if k not in PANO else (640, 320))
        if cam.id not in rec.cameras:
            rec.add_camera(cam)
    names = ["im%d%s" % (j, [".png", ".jpg", ""][j]) for j in range(len(kinds))]
    for j, k in enumerate(kinds):
        R, c = rod((0.3 * j - 0.2, 0.9 * j, 0.1)), np.array([0.4 * j - 0.3, 0.2 * j, -0.3 * j])
        if rig:
            a, b = rod((0.05 * j, -0.1, 0.3 * j)), np.array([0.1, -0.05 * j, 0.2])
            rc = pymap.RigCamera(pygeometry.Pose(), "rc%d" % j)
            rc.pose.set_rotation_matrix(a)
            rc.pose.translation = b
            rec.add_rig_camera(rc)
            if j == 0:
                ri = rec.add_rig_instance(pymap.RigInstance("rig"))
                ri.pose = pose(R, c)
                R0, c0 = R, c
            rec.create_shot(names[j], "cam_%s" % k, None, "rc%d" % j, "rig")
            Rw = a @ R0
            cw = c0 - R0.T @ a.T @ b
        else:
            rec.create_shot(names[j], "cam_%s" % k, pose(R, c))
            Rw, cw = R, c
        m = pymap.ShotMeasurements()
        if j != len(kinds) - 1 or not rig:  # an image without position but with the rest
            m.gps_position.value = np.array([1.0 * j, 2.0, 3.0])
            m.gps_accuracy.value = 4.0 + j
        m.capture_time.value = 100.0 + j
        m.orientation.value = 1
        rec.shots[names[j]].metadata = m
        info[names[j]] = (k, Rw, cw, {})
        for n, (t, X) in enumerate(sorted(pts.items())):
            if not seen_all and (n + j) % 3 == 0:
                continue
            p = visible(k, kpar(k), Rw @ (X - cw))
            if p is not None:
                tm.add_observation(names[j], t, pymap.Observation(p[0], p[1], 0.001 * (n + 1), n % 250, 2 * n % 250, 3 * n % 250, n, 5, 6))
                info[names[j]][3][t] = n
    for n, (t, X) in enumerate(sorted(pts.items())):
        if n % 4 != 3:
            rec.create_point(t, X).color = [n, 2 * n, 255 - n]
    return rec, tm, pts, names, info


def shots(ck, kinds):
    n = len(kinds)
    for rig, seen_all in ((False, True), (True, False)):
        for missing in itertools.product((0, 1), repeat=n):
            for fmt in ("png", "jpg"):
                for tracks in ("all", "none", "first out"):
                    if ck.quick and (sum(missing) + (fmt == "jpg") + (tracks != "all") + rig > 2):
                        continue
                    one(ck, kinds, rig, seen_all, missing, fmt, tracks)


def one(ck, kinds, rig, seen_all, missing, fmt, tracks):
    rec, tm, pts, names, info = world(kinds, rig, seen_all)
    if tracks == "first out":
        tm = pymap.TracksManager()
        _, full, _, _, _ = world(kinds, rig, seen_all)
        for s in full.get_shot_ids():
            if s != names[0]:
                for t, o in full.get_shot_observations(s).items():
                    tm.add_observation(s, t, o)
        info[names[0]][3].clear()
    data = Data([s for s, m in zip(names, missing) if not m] + ["other.png"], undistorted_image_format=fmt)
    out = Out()
    what = "%s rig %s missing %s %s tracks %s" % (kinds, rig, missing, fmt, tracks)
    before = json.dumps([[s, sorted(rec.shots[s].pose.rotation), sorted(rec.shots[s].pose.translation)] for s in sorted(rec.shots.keys())])
    got = undistort.undistort_reconstruction(None if tracks == "none" else tm, rec, data, out)
    ck.ev()
    ck.expect(before == json.dumps([[s, sorted(rec.shots[s].pose.rotation), sorted(rec.shots[s].pose.translation)] for s in sorted(rec.shots.keys())])
              and len(list(rec.points.keys())) == sum(1 for n in range(len(pts)) if n % 4 != 3), "source-changed", what)
    ck.expect(len(out.rec) == 1, "one-reconstruction", what)
    u = out.rec[0]
    want = {}
    for s, k, m in zip(names, kinds, missing):
        if m or k in SKIPPED:
            continue
        if k in PANO:
            ids = ["%s_perspective_view_%s.%s" % (s, v, fmt) for v in VIEWS]
        else:
            ids = [s if s.endswith("." + fmt) else s + "." + fmt]
        want[s] = ids
    ck.expect({k: sorted(v) for k, v in out.ids.items()} == {k: sorted(v) for k, v in want.items()}, "ids", "%s: %r instead of %r" % (what, out.ids, want))
    ck.expect({k: [x.id for x in v] for k, v in got.items()} == out.ids, "returned", "%s: %r" % (what, {k: [x.id for x in v] for k, v in got.items()}))
    ck.expect(set(u.shots.keys()) == {x for v in want.values() for x in v}, "shots", "%s: %r" % (what, sorted(u.shots.keys())))
    ck.expect(set(u.points.keys()) == set(rec.points.keys()), "points", "%s: %d" % (what, len(list(u.points.keys()))))
    for t in rec.points.keys():
        ck.expect(np.array_equal(u.points[t].coordinates, rec.points[t].coordinates) and list(u.points[t].color) == list(rec.points[t].color), "point", "%s: %s" % (what, t))
    ck.expect((u.reference.lat, u.reference.lon, u.reference.alt) == (REF.lat, REF.lon, REF.alt), "reference", what)
    ck.expect(("tracks" in out.__dict__) == (tracks != "none"), "tracks-saved", what)
    wanto = {}
    for s, ids in want.items():
        k, Rw, cw, obs = info[s]
        for i in ids:
            sub = u.shots[i]
            ck.expect(np.allclose(sub.pose.get_origin(), cw, atol=1e-9), "center", "%s: %s at %r instead of %r" % (what, i, sub.pose.get_origin(), cw))
            if k not in PANO:
                ck.expect(np.allclose(sub.pose.get_rotation_matrix(), Rw, atol=1e-9), "rotation", "%s: %s" % (what, i))
            a, b = sub.metadata, rec.shots[s].metadata
            for f in ("gps_position", "gps_accuracy", "capture_time", "orientation"):
                x, y = getattr(a, f), getattr(b, f)
                ck.expect(x.has_value == y.has_value and (not y.has_value or np.array_equal(x.value, y.value)), "metadata", "%s: %s %s" % (what, i, f))
            ck.expect(sub.camera.projection_type == "perspective" and sub.camera.k1 == 0 and sub.camera.k2 == 0, "perspective", "%s: %s %s" % (what, i, sub.camera.projection_type))
            V = sub.pose.get_rotation_matrix()
            f = sub.camera.focal
            wanto[i] = {}
            for t, q in obs.items():
                X = V @ (pts[t] - cw)
                if X[2] <= 0:
                    continue
                p = f * X[0] / X[2], f * X[1] / X[2]
                if k in PANO and (abs(p[0]) > 0.5 or abs(p[1]) > 0.5):
                    continue
                wanto[i][t] = (p, q)
    if tracks == "none":
        ck.outcome((tuple(kinds), rig, missing, fmt, tracks))
        return
    ut = out.tracks
    have = set(ut.get_shot_ids())
    ck.expect(have <= set(wanto), "tracks-of-others", "%s: %r" % (what, have - set(wanto)))
    for i, w in wanto.items():
        o = ut.get_shot_observations(i) if i in have else {}
        ck.expect(set(o) == set(w), "observations", "%s: %s has %d observations instead of %d" % (what, i, len(o), len(w)))
        for t in w:
            (p, q), g = w[t], o[t]
            ck.ev()
            ck.expect(np.abs(np.array(g.point) - p).max() < 1e-6 * (1 + (p[0] ** 2 + p[1] ** 2) / u.shots[i].camera.focal ** 2), "observation", "%s: %s sees %s at %r instead of %r" % (what, i, t, list(g.point), p))
            ck.expect(list(g.color) == [q % 250, 2 * q % 250, 3 * q % 250] and g.id == q and abs(g.scale - 0.001 * (q + 1)) < 1e-12 and g.segmentation == 5 and g.instance == 6,
                      "observation-data", "%s: %s of %s" % (what, t, i))
    pano = [s for s, k, m in zip(names, kinds, missing) if k in PANO and not m]
    for s in pano:
        n = {}
        for i in want[s]:
            for t in (ut.get_shot_observations(i) if i in have else {}):
                n[t] = n.get(t, 0) + 1
        ck.expect(n == {t: 1 for t in info[s][3]}, "each-once", "%s: %s: %r" % (what, s, n))
    ck.outcome((tuple(kinds), rig, missing, fmt, tracks))


# files: (format, image bits, channels, masks, segmentations, max size, skip images, reconstruction index)
FILES = [("png", b, c, m, s, z, skip) for b in (8, 16) for c in (1, 3, 4) for m, s in ((1, 1), (1, 0), (0, 1), (0, 0)) for z in (100000, 20) for skip in (0,)] + \
        [("jpg", 8, 3, 1, 1, 100000, 0), ("tif", 8, 3, 1, 1, 20, 0), ("png", 8, 3, 1, 1, 100000, 1)]


def noise(h, w, c, bits, salt):
    v, u = np.mgrid[0:h, 0:w]
    top = 250 if bits == 8 else 60000
    ch = [(np.sin(u / 5.0 + q + salt) * np.cos(v / 4.0 - q) + 1) / 2 * top for q in range(c)]
    a = np.dstack(ch).astype(np.uint8 if bits == 8 else np.uint16)
    return a[:, :, 0] if c == 1 else a


def ignore(ck, d, i, ids, msk, seg):
    """labels that are ignored in the undistorted images: their own, else those of the images"""
    with open(d + "/config.yaml") as f:
        conf = f.read()
    for plain in (None, [], [3], [1, 2]):
        for own in (None, [], [2], [3, 4, 77]):
            with open(d + "/config.yaml", "w") as f:
                f.write("".join("%s: %r\n" % (k, v) for k, v in (("segmentation_ignore_values", plain), ("undistorted_segmentation_ignore_values", own)) if v is not None))
            ud = dataset.UndistortedDataSet(dataset.DataSet(d), d + "/und")
            bad = (plain if own is None else own) or []
            for s, sub in ids.items():
                for x in sub:
                    cm = ud.load_undistorted_mask(x) > 0 if s in msk else None
                    if s in seg and bad:
                        m = ~np.isin(ud.load_undistorted_segmentation(x), bad)
                        cm = m if cm is None else cm & m
                    c = ud.load_undistorted_combined_mask(x)
                    ck.ev()
                    ck.expect((c is None) == (cm is None) and (c is None or np.array_equal(np.asarray(c) > 0, cm)), "ignored-labels", "%r: %s with labels %r, for undistorted images %r" % (FILES[i], x, plain, own))
    with open(d + "/config.yaml", "w") as f:
        f.write(conf)


def files(ck, i):
    fmt, bits, chans, masks, segs, size, skip = FILES[i]
    res = {}
    for procs in (1, 2):
        d = os.path.join(ck.scratch, "u%d" % procs)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/images")
        with open(d + "/config.yaml", "w") as f:
            f.write("processes: %d\nundistorted_image_format: %s\nundistorted_image_max_size: %d\ndepthmap_resolution: 12\nsegmentation_ignore_values: [3]\n" % (procs, fmt, size))
        kinds = ["brown", "spherical", "perspective"]
        rec, tm, pts, names, info = world(kinds, False, True)
        names = ["im0.png", "im1.jpg", "im2"]
        rename = {"im0.png": "im0.png", "im1.jpg": "im1.png", "im2": "im2.png"}
        r2 = types.Reconstruction()
        t2 = pymap.TracksManager()
        for c in rec.cameras.values():
            r2.add_camera(c)
        src, msk, seg = {}, {}, {}
        for j, s in enumerate(names):
            n = rename[s]
            r2.create_shot(n, rec.shots[s].camera.id, rec.shots[s].pose)
            for t, o in tm.get_shot_observations(s).items():
                t2.add_observation(n, t, o)
            h, w = (24, 48) if kinds[j] == "spherical" else (26, 37)
            src[n] = noise(h, w, chans, bits, j)
            dataset.io.imwrite(d + "/images/" + n, src[n])
            if masks and j != 2:
                os.makedirs(d + "/masks", exist_ok=True)
                msk[n] = ((np.mgrid[0:h, 0:w][1] % 9 > 3) * 255).astype(np.uint8)
                dataset.io.imwrite(d + "/masks/" + n + ".png", msk[n])
            if segs and j != 0:
                os.makedirs(d + "/segmentations", exist_ok=True)
                seg[n] = (np.mgrid[0:h, 0:w][0] // 5 + 1).astype(np.uint8)
                dataset.io.imwrite(d + "/segmentations/" + n + ".png", seg[n])
        data = dataset.DataSet(d)
        data.save_camera_models(r2.cameras)
        other = types.Reconstruction()
        data.save_reconstruction([other, r2], "rec2.json")
        data.save_tracks_manager(t2, "tr2.csv")
        action.run_dataset(data, "rec2.json", 1, "tr2.csv", "und", bool(skip))
        ud = dataset.UndistortedDataSet(data, d + "/und")
        ids = ud.load_undistorted_shot_ids()
        ck.expect(sorted(ids) == ["im0.png", "im1.png", "im2.png"], "files-ids", "%r: %r" % (FILES[i], ids))
        u = ud.load_undistorted_reconstruction()[0]
        ck.expect(set(u.shots.keys()) == {x for v in ids.values() for x in v}, "files-shots", "%r: %r" % (FILES[i], sorted(u.shots.keys())))
        ck.expect(set(ud.load_undistorted_tracks_manager().get_shot_ids()) <= set(u.shots.keys()), "files-tracks", "%r" % (FILES[i],))
        for s, sub in ids.items():
            shot = r2.shots[s]
            for x in sub:
                have = os.path.exists(d + "/und/images/" + x)
                ck.ev()
                ck.expect(have == (not skip), "files-image", "%r: %s" % (FILES[i], x))
                ck.expect(ud.undistorted_mask_exists(x) == (s in msk and not skip), "files-mask", "%r: %s" % (FILES[i], x))
                ck.expect(ud.undistorted_segmentation_exists(x) == (s in seg and not skip), "files-segmentation", "%r: %s" % (FILES[i], x))
                if skip:
                    continue
                got = dataset.io.imread(d + "/und/images/" + x, unchanged=True, anydepth=True)
                want = undistort.undistort_image(shot, [u.shots[y] for y in sub], src[s], cv2.INTER_AREA, size)[x]
                ck.expect(got.shape == want.shape and max(got.shape) <= max(size, 20), "files-shape", "%r: %s %r instead of %r" % (FILES[i], x, got.shape, want.shape))
                ck.expect(np.array_equal(got, want) if fmt != "jpg" else np.abs(got.astype(float) - want).mean() < 20, "files-pixels", "%r: %s differs" % (FILES[i], x))
                cm = None
                if s in msk:
                    m = undistort.undistort_image(shot, [u.shots[y] for y in sub], msk[s], cv2.INTER_NEAREST, size)[x]
                    ck.expect(np.array_equal(ud.load_undistorted_mask(x), m) and set(np.unique(m)) <= {0, 255}, "files-mask-pixels", "%r: %s" % (FILES[i], x))
                    cm = m > 0
                if s in seg:
                    g = undistort.undistort_image(shot, [u.shots[y] for y in sub], seg[s], cv2.INTER_NEAREST, size)[x]
                    ck.expect(np.array_equal(ud.load_undistorted_segmentation(x), g) and set(np.unique(g)) <= {0} | set(np.unique(seg[s])), "files-segmentation-pixels", "%r: %s" % (FILES[i], x))
                    cm = (g != 3) if cm is None else cm & (g != 3)
                c = ud.load_undistorted_combined_mask(x)
                ck.expect((c is None) == (cm is None) and (c is None or np.array_equal(np.asarray(c) > 0, cm)), "combined-mask", "%r: %s" % (FILES[i], x))
        if procs == 1 and not skip:
            ignore(ck, d, i, ids, msk, seg)
        tree = {}
        for base, _, fs in os.walk(d + "/und"):
            for f in fs:
                with open(os.path.join(base, f), "rb") as fh:
                    tree[os.path.relpath(os.path.join(base, f), d)] = fh.read()
        res[procs] = tree
        expect_files = {"und/reconstruction.json", "und/tracks.csv", "und/undistorted_shot_ids.json"}
        rest = set(tree) - expect_files
        ck.expect(expect_files <= set(tree) and all(f.split("/")[1] in ("images", "masks", "segmentations") for f in rest), "files-others", "%r: %r" % (FILES[i], sorted(tree)))
    ck.expect(res[1].keys() == res[2].keys() and all(sorted(res[1][k].split(b"\n")) == sorted(res[2][k].split(b"\n")) for k in res[1]), "parallel", "%r: two processes gave other files than one" % (FILES[i],))
    ck.outcome(i)
