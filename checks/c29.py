"""C29: everything exported describes the same cameras, points and measurements in the conventions of its format."""
import itertools
import json
import math
import os
import runpy
import shutil
import sqlite3
import struct
import sys

import cv2
import numpy as np
import pyproj
from opensfm import dataset, features, pygeometry, pymap, types
from opensfm.actions import (export_bundler, export_colmap, export_geocoords, export_openmvs, export_ply, export_pmvs, export_visualsfm, undistort)

import boot
import c13
from bascene import REF, look, pose
from scene import rod

LEVEL = "exploration"
RULE = ("all sequences of up to three kinds of cameras x rigs x one or two reconstructions x masks x every list of images to export, on real "
        "datasets undistorted by the real command; every exporter is run on each and its files are read back by independent readers of the "
        "documented formats; every measurement is compared with the projection of its point by its camera as the format prescribes; "
        "non-trivial: distinct files")
ASSUMPTIONS = ["numbers in text files are compared to within the digits their format writes",
               "the bundler and PMVS formats of distorted reconstructions are exact for perspective cameras only (others approximate)",
               "images have names without blanks and fewer than 256 views per point"]
KINDS = {"p": ("perspective", (0.8, 1, (0, 0), (-0.05, 0.02), 0.5)), "b": ("brown", (0.75, 1.04, (0.01, -0.02), (-0.05, 0.02, -0.01, 0.002, -0.001), 0.5)),
         "f": ("fisheye", (0.6, 1, (0, 0), (-0.03, 0.01), 0.5)), "o": ("fisheye_opencv", (0.6, 1.03, (-0.02, 0.01), (-0.03, 0.01, -0.004, 0.001), 0.5)),
         "s": ("spherical", (1, 1, (0, 0), (), 0.5)), "r": ("radial", (0.7, 1.01, (0.01, 0.01), (-0.02, 0.01), 0.5)),
         "q": ("perspective", (0.7, 1, (0, 0), (-0.04, 0.12), 0.5)), "g": ("fisheye", (0.65, 1, (0, 0), (0.02, -0.01), 0.5))}
SIZE = {"q": (151, 199), "g": (149, 201), "p": (200, 160), "b": (160, 200), "f": (180, 180), "o": (200, 150), "s": (128, 64), "r": (200, 160)}
NAMES = ["a.png", "zürich_02.png", "B.3.png", "d.png", "e.png"] + ["%d.png" % i for i in range(9)]
PLACES = [(9, 1, 1), (3, 9, 2.5), (-8, 5, -1), (-6, -7, 1), (2, -9, 3)] + [(9 * math.cos(0.6 * i), 9 * math.sin(0.6 * i), 2 - 0.3 * i) for i in range(9)]
NP = 26


class World:
    """A dataset on disk, with exact measurements"""

    def __init__(self, root, kinds, rig=False, nrec=1, masks=False, size=None):
        self.root, self.kinds, self.rig, self.nrec = root, kinds, rig, nrec
        os.makedirs(os.path.join(root, "images"))
        self.points = [np.array([1.6 * math.sin(2.4 * i) * (0.4 + i / NP), 1.6 * math.cos(2.4 * i) * (0.4 + i / NP), 1.3 * math.sin(1.3 * i + 0.4)]) for i in range(NP)]
        self.names = NAMES[:len(kinds) + (2 if nrec == 2 else 0)]
        self.kind = {n: kinds[i % len(kinds)] for i, n in enumerate(self.names)}
        self.size = {n: SIZE[self.kind[n]] for n in self.names}
        self.R = {n: look(PLACES[i], (0.1, 0.05 * i, 0), 0.3 * i) for i, n in enumerate(self.names)}
        self.C = {n: np.array(PLACES[i], float) for i, n in enumerate(self.names)}
        if kinds[0] == "p" and not rig:                # no rotation at all
            self.R[self.names[0]], self.C[self.names[0]] = np.eye(3), np.array([0.2, -0.1, -8])
        if kinds[0] == "q" and not rig:                # hardly any
            self.R[self.names[0]], self.C[self.names[0]] = rod((2e-3, 4e-3, -3e-3)), np.array([0.2, -0.1, -8])
        self.recs = [self.names[:len(kinds)], self.names[len(kinds):]][:nrec]
        self.cams = {}
        for n in self.names:
            k = self.kind[n]
            c = c13.make(KINDS[k][0], *KINDS[k][1])
            c.id = "cam " + k
            c.width, c.height = SIZE[k]
            self.cams[c.id] = c
            rgb = np.zeros((c.height, c.width, 3), np.uint8)
            rgb[:, :] = (30, 60, 90)
            rgb[2 * c.height // 3:] = (200, 10 * len(n), 40)
            cv2.imwrite(os.path.join(root, "images", n), rgb[:, :, ::-1])
            if masks and n == self.names[0]:
                os.makedirs(os.path.join(root, "masks"))
                cv2.imwrite(os.path.join(root, "masks", n + ".png"), np.full((c.height, c.width), 255, np.uint8))
        with open(os.path.join(root, "config.yaml"), "w") as f:
            f.write("processes: 1\nundistorted_image_format: png\ndepthmap_resolution: 64\nfeature_type: SIFT\n")
        d = self.data = dataset.DataSet(root)
        d.save_camera_models(self.cams)
        d.save_reference(REF)
        self.feat, self.obs = {}, {}
        tm = pymap.TracksManager()
        for i, n in enumerate(self.names):
            k = self.kind[n]
            w, h = SIZE[k]
            d.save_exif(n, {"camera": "cam " + k, "width": w, "height": h, "orientation": 1, "make": "m", "model": "x", "capture_time": 0.0,
                            "gps": {"latitude": 47.0 + i * 1e-5, "longitude": 8.5, "altitude": 300.0} if i != 1 else {}})
            seen = [j for j in range(NP) if j < 18 or (j * 5 + 1) % 7 + 1 >> (i % 3) & 1]
            order = sorted(range(len(seen) + 3), key=lambda j: (j * 11 + i * 5) % (len(seen) + 3))       # three features without track
            pts = np.zeros((len(order), 4), np.float32)
            pts[:, 2] = 0.01
            for f, j in enumerate(order):
                if j < len(seen):
                    pts[f, :2] = self.project(n, self.points[seen[j]])
                    self.obs[n, seen[j]] = f
                    tm.add_observation(n, "t%d" % seen[j], pymap.Observation(float(pts[f, 0]), float(pts[f, 1]), 0.01, seen[j], 20, 30, f))
                else:
                    pts[f, :2] = (-0.3 + 0.1 * j / len(order), 0.01 * f)
            self.feat[n] = pts
            d.save_features(n, features.FeaturesData(pts, (np.arange(len(order) * 128).reshape(-1, 128) % 251 + i).astype(np.float32), np.full((len(order), 3), 99), None))
        self.matches = {}
        for a, b in itertools.combinations(self.names, 2):
            m = [(self.obs[a, j], self.obs[b, j]) for j in range(NP) if (a, j) in self.obs and (b, j) in self.obs]
            self.matches[a, b] = m
        for i, n in enumerate(self.names):             # every pair is kept by one of its images, in turns
            mine = {}
            for (a, b), m in self.matches.items():
                first = (self.names.index(a) + self.names.index(b)) % 2
                if (a, b)[first] == n:
                    mine[(a, b)[1 - first]] = np.array([p[::-1] if first else p for p in m])
            d.save_matches(n, mine)
        recs = []
        for r, names in enumerate(self.recs):
            rec = types.Reconstruction()
            rec.reference = REF
            for c in self.cams.values():
                rec.add_camera(c)
            if rig and len(names) > 1:
                RI, tI = rod((0.2, -0.1, 0.5)), np.array([0.3, 0.2, -0.4])
                self.hub = -RI.T @ tI
                inst = pymap.RigInstance("rig")
                for j, n in enumerate(names[:2]):
                    R = self.R[n] @ RI.T
                    t = -self.R[n] @ self.C[n] - R @ tI
                    p = pygeometry.Pose()
                    p.set_rotation_matrix(R)
                    p.translation = t
                    rec.add_rig_camera(pymap.RigCamera(p, "rc%d" % j))
                rec.add_rig_instance(inst)
                for j, n in enumerate(names[:2]):
                    rec.create_shot(n, "cam " + self.kind[n], rig_camera_id="rc%d" % j, rig_instance_id="rig")
                p = pygeometry.Pose()
                p.set_rotation_matrix(RI)
                p.translation = tI
                rec.rig_instances["rig"].pose = p
            for n in names:
                if n not in rec.shots:
                    rec.create_shot(n, "cam " + self.kind[n], pose(self.R[n], self.C[n]))
            for j in range(NP):
                if sum((n, j) in self.obs for n in names) >= (2 if len(names) > 1 else 1):
                    p = rec.create_point("t%d" % j, self.points[j])
                    p.color = (j, 100 + j, 255 - j)
            recs.append(rec)
        d.save_tracks_manager(tm)
        d.save_reconstruction(recs)
        self.tm = tm

    def project(self, n, x):
        k, par = KINDS[self.kind[n]]
        return np.array(c13.project(k, *par, tuple(self.R[n] @ (x - self.C[n]))))

    def undistort(self, r=0):
        undistort.run_dataset(self.data, None, r, None, "undistorted", False)
        self.u = self.data.undistorted_dataset()
        self.urec = self.u.load_undistorted_reconstruction()[0]
        self.utm = self.u.load_undistorted_tracks_manager()
        self.uobs = {}
        for t in self.utm.get_track_ids():
            for s, o in self.utm.get_track_observations(t).items():
                self.uobs[s, t] = (o.id, np.array(o.point))
        return self.urec

    def uproject(self, s, x):
        """by the definition of a perspective camera without distortion; also the depth"""
        sh = self.urec.shots[s]
        p = np.asarray(sh.pose.get_rotation_matrix()) @ np.asarray(x) + np.asarray(sh.pose.translation)
        return sh.camera.focal * p[:2] / p[2], p[2]


def quat(q):
    w, x, y, z = np.array(q, float) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


def cases(ck):
    ks = "pbfosr"
    seqs = ["".join(s) for n in ((1, 2) if ck.quick else (1, 2, 3)) for s in itertools.product(ks, repeat=n)]
    if ck.quick:
        seqs += ["ppp", "pbf", "sop", "fbr", "bps", "rrp"]
    out = []
    for s in seqs:
        out.append(["undistorted", s, False, 1, False])
        if len(s) > 1:
            out.append(["undistorted", s, True, 1, True])
    out += [["undistorted", s, r, 2, m] for s in ("pb", "sp", "ppp") for r in (False, True) for m in (False, True)]
    cs = ["".join(s) for n in ((1, 2) if ck.quick else (1, 2, 3)) for s in itertools.product("pbfo", repeat=n)] + ["pbf", "ofp", "q", "qg", "gp", "qqg"]
    out += [["colmap", "pqfgpbqofpgp"[:n], False, k, b] for n, k in ((12, 1), (9, 2)) for b in (False, True)]
    out += [["overrides", s, o, b] for s in ("p", "pb", "fq") for o in range(1, 4) for b in (False, True) if o < 2 ** len(s)]
    out += [["colmap", s, r, n, b] for s in cs for r in (False, True) for n in (1, 2) for b in (False, True) if len(s) > 1 or not r]
    ps = ["p", "pp", "ppp", "pb", "bp", "bbp", "bb", "q", "qp", "pqq"]
    out += [["distorted", s, r, n] for s in ps for r in (False, True) for n in (1, 2)]
    gs = ["pb", "ppp", "sf"] if ck.quick else ["".join(s) for s in itertools.product("pfs", repeat=2)] + ["ppp", "bos"]
    out += [["geo", s, r, n, p] for s in gs for r in (False, True) for n in (1, 2) for p in range(len(PROJ))]
    out += [["gps", s, r, n] for s in gs for r in (False, True) for n in (1, 2)]
    return out


def check(ck, case):
    shutil.rmtree(os.path.join(ck.scratch, "w"), ignore_errors=True)
    globals()[case[0]](ck, os.path.join(ck.scratch, "w"), *case[1:])
    shutil.rmtree(os.path.join(ck.scratch, "w"), ignore_errors=True)


def undistorted(ck, root, kinds, rig, nrec, masks):
    w = World(root, kinds, rig, nrec, masks)
    for r in range(nrec):
        urec = w.undistort(r)
        what = "%s rig %s reconstruction %d" % (kinds, rig, r)
        shots = list(urec.shots.keys())
        # what is exported is the undistorted reconstruction: it has to be right itself
        for (s, t), (f, v) in w.uobs.items():
            if t in urec.points and s in urec.shots:
                q, z = w.uproject(s, urec.points[t].coordinates)
                ck.expect(z > 0 and np.abs(q - v).max() < 2e-4, "undistorted", "%s: %s of %s at %r instead of %r" % (what, t, s, v, q))
        lists = [None]
        if shots:
            names = shots[:3]
            lists += [c for n in range(len(names) + 1) for c in itertools.combinations(names, n)] if nrec == 1 else [tuple(names[1:])]
        for only in lists:
            path = ""
            if only is not None:
                path = os.path.join(root, "list.txt")
                with open(path, "w") as f:
                    f.write("\n".join(only) + "\n")
            ck.ev()
            ck.outcome((kinds, rig, nrec, r, only))
            mvs(ck, w, what, path, shots if only is None else list(only))
            for points in (True, False):
                nvm(ck, w, what, path, points, shots if only is None else list(only))
            pmvs(ck, w, what, path, [urec], True, [shots if only is None else list(only)])
        bundler(ck, w, what, [urec], True, shots)
        ck.ev()
        if shots and r == 0:
            depth_ply(ck, w, what)


def exported_points(w, shots):
    """tracks of the undistorted reconstruction with the views of the given shots"""
    out = {}
    for t in w.urec.points.keys():
        v = {s: w.uobs[s, t] for s in shots if (s, t) in w.uobs}
        out[t] = v
    return out


# ---- OpenMVS ----------------------------------------------------------------

class Bin:
    def __init__(self, b):
        self.b, self.i = b, 0

    def get(self, fmt):
        v = struct.unpack_from("<" + fmt, self.b, self.i)
        self.i += struct.calcsize("<" + fmt)
        return v[0] if len(v) == 1 else v

    def string(self):
        n = self.get("Q")
        self.i += n
        return self.b[self.i - n:self.i].decode()

    def list(self, f):
        return [f() for _ in range(self.get("Q"))]


def read_mvs(path):
    b = Bin(open(path, "rb").read())
    assert b.b[:4] == b"MVSI", b.b[:4]
    b.i = 4
    version = b.get("I")
    b.get("I")

    def camera():
        c = {"name": b.string()}
        if version > 3:
            b.string()
        if version > 0:
            c["size"] = b.get("2I")
        c["K"], c["R"], c["C"] = np.array(b.get("9d")).reshape(3, 3), np.array(b.get("9d")).reshape(3, 3), np.array(b.get("3d"))
        return c

    def platform():
        return {"name": b.string(), "cameras": b.list(camera), "poses": b.list(lambda: (np.array(b.get("9d")).reshape(3, 3), np.array(b.get("3d"))))}

    def image():
        im = {"name": b.string()}
        im["mask"] = b.string() if version > 4 else ""
        im["platform"], im["camera"], im["pose"] = b.get("3I")
        if version > 2:
            im["id"] = b.get("I")
        return im

    out = {"platforms": b.list(platform), "images": b.list(image),
           "vertices": b.list(lambda: (np.array(b.get("3f")), b.list(lambda: b.get("If"))))}
    out["normals"], out["colors"] = b.list(lambda: b.get("3f")), b.list(lambda: b.get("3B"))
    if version > 0:
        out["lines"] = b.get("3Q")
        assert out["lines"] == (0, 0, 0)
    if version > 1:
        out["transform"] = np.array(b.get("16d")).reshape(4, 4)
    if version > 5:
        b.get("15d")
    assert b.i == len(b.b), (b.i, len(b.b))
    return out


def mvs(ck, w, what, path, shots):
    what = "openmvs of %s with %r: " % (what, shots)
    export_openmvs.run_dataset(w.data, path)
    m = read_mvs(os.path.join(w.u.data_path, "openmvs", "scene.mvs"))
    names = [s for s in w.urec.shots.keys() if s in shots]
    base = os.path.join(os.path.abspath(w.u.data_path), "images")
    ck.expect(sorted(i["name"] for i in m["images"]) == sorted(os.path.join(base, s) for s in names), "mvs-images", what + repr([i["name"] for i in m["images"]]))
    at = {}
    for k, im in enumerate(m["images"]):
        s = os.path.basename(im["name"])
        at[k] = s
        if s not in w.urec.shots:
            continue
        ck.expect(os.path.isfile(im["name"]), "mvs-file", what + "no image file " + im["name"])
        mask = os.path.join(os.path.abspath(w.u.data_path), "masks", s + ".png")
        ck.expect(im["mask"] == (mask if os.path.isfile(mask) else ""), "mvs-mask", what + "mask %r of %s" % (im["mask"], s))
        p = m["platforms"][im["platform"]]
        cam, (R, C) = p["cameras"][im["camera"]], p["poses"][im["pose"]]
        sh = w.urec.shots[s]
        ck.expect(tuple(cam["size"]) == (sh.camera.width, sh.camera.height), "mvs-size", what + repr(cam["size"]))
        for t, v in exported_points(w, [s]).items():
            if s in v:
                x = w.urec.points[t].coordinates
                q = cam["K"] @ cam["R"] @ (R @ (np.asarray(x) - C) - cam["C"])
                mx = max(cam["size"])
                want = v[s][1] * mx + (np.array(cam["size"]) - 1) / 2
                ck.expect(q[2] > 0 and np.abs(q[:2] / q[2] - want).max() < 0.05, "mvs-projection", what + "%s in %s at %r, measured at %r" % (t, s, q[:2] / q[2], want))
    want = sorted((tuple(np.float32(w.urec.points[t].coordinates)), tuple(sorted(v))) for t, v in exported_points(w, shots).items() if v)
    got = sorted((tuple(np.float32(x)), tuple(sorted(at.get(i, "?") for i, _ in views))) for x, views in m["vertices"])
    ck.expect(want == got, "mvs-points", what + "%d points %r instead of %d %r" % (len(got), [g for g in got if g not in want][:2], len(want), [g for g in want if g not in got][:2]))
    ck.expect(len(m["normals"]) in (0, len(got)) and len(m["colors"]) in (0, len(got)), "mvs-lengths", what + "normals or colours of other numbers")
    ck.expect(np.array_equal(m["transform"], np.eye(4)), "mvs-transform", what + repr(m["transform"]))


# ---- VisualSfM ----------------------------------------------------------------

def nvm(ck, w, what, path, points, shots):
    what = "nvm of %s with %r, points %s: " % (what, shots, points)
    export_visualsfm.run_dataset(w.data, points, path)
    lines = open(os.path.join(w.u.data_path, "reconstruction.nvm"), encoding="utf-8").read().split("\n")
    ck.expect(lines[0].strip() == "NVM_V3", "nvm-header", what + lines[0])
    words = " \n".join(lines[1:]).split()
    pos = [0]

    def take(n=1):
        pos[0] += n
        return words[pos[0] - n:pos[0]]
    names = [s for s in w.urec.shots.keys() if s in shots]
    n = int(take()[0])
    cams = []
    for _ in range(n):
        c = take(11)
        f = float(c[1])
        R, C = quat([float(x) for x in c[2:6]]), np.array([float(x) for x in c[6:9]])
        cams.append((os.path.basename(c[0]), f, R, C))
        ck.expect(os.path.isfile(os.path.join(w.u.data_path, c[0])), "nvm-file", what + "no image file " + c[0])
        ck.expect(float(c[9]) == 0 and c[10] == "0", "nvm-distortion", what + repr(c))
    ck.expect(sorted(c[0] for c in cams) == sorted(names), "nvm-images", what + repr([c[0] for c in cams]))
    m = int(take()[0])
    got = []
    for _ in range(m):
        p = take(7)
        x = np.array([float(v) for v in p[:3]])
        views = []
        for _ in range(int(p[6])):
            i, f, a, b = take(4)
            s, foc, R, C = cams[int(i)]
            sh = w.urec.shots[s]
            h, wd = w.u.undistorted_image_size(s)
            q = R @ (x - C)
            want = foc * q[:2] / q[2] + np.array([wd, h]) / 2
            ck.expect(q[2] > 0 and np.abs(want - (float(a), float(b))).max() < 0.05, "nvm-projection", what + "point in %s at %r, measured at %r" % (s, want, (a, b)))
            views.append((s, int(f)))
        got.append((tuple(np.float32(x)), tuple(int(c) for c in p[3:6]), tuple(sorted(views))))
    want = []
    if points:
        for t, v in exported_points(w, shots).items():
            if len(v) > 1:
                pt = w.urec.points[t]
                want.append((tuple(np.float32(pt.coordinates)), tuple(int(c) for c in pt.color), tuple(sorted((s, o[0]) for s, o in v.items()))))
    ck.expect(sorted(got) == sorted(want), "nvm-points", what + "%d points instead of %d: %r, %r" % (len(got), len(want), sorted(got)[:1], sorted(want)[:1]))
    ck.expect(set(words[pos[0]:]) <= {"0"}, "nvm-end", what + "left over %r" % words[pos[0]:][:5])


# ---- Bundler ----------------------------------------------------------------

def bundler(ck, w, what, recs, und, images, chosen=False):
    what = "bundler of %s, undistorted %s: " % (what, und) + ("only %s: " % (images,) if chosen else "")
    out = os.path.join(w.root, "bundler")
    shutil.rmtree(out, ignore_errors=True)
    other = os.path.join(w.root, "lists")
    shutil.rmtree(other, ignore_errors=True)
    if chosen:
        export_bundler.export_bundler(list(images), recs, w.tm, out, out)
    else:
        export_bundler.run_dataset(w.data, other if und else None, None, und)
    ck.expect(sorted(os.listdir(out)) == sorted(["bundle_r%03d.out" % r for r in range(len(recs))] + ([] if und else ["list_r%03d.out" % r for r in range(len(recs))])),
              "bundler-files", what + repr(os.listdir(out)))
    for r, rec in enumerate(recs):
        lst = open(os.path.join(other if und else out, "list_r%03d.out" % r), encoding="utf-8").read().split("\n")
        lst = [x for x in lst if x]
        ck.expect(lst == list(images), "bundler-list", what + "%r instead of %r" % (lst, images))
        text = open(os.path.join(out, "bundle_r%03d.out" % r)).read()
        ck.expect(text.startswith("# Bundle file v0.3\n"), "bundler-header", what + text[:30])
        words = text.split("\n", 1)[1].split()
        pos = [0]

        def take(n):
            pos[0] += n
            return words[pos[0] - n:pos[0]]
        n, m = [int(x) for x in take(2)]
        ck.expect(n == len(images), "bundler-count", what + "%d images" % n)
        cams = []
        for i in range(n):
            c = [float(x) for x in take(15)]
            cams.append((c[0], c[1], c[2], np.array(c[3:12]).reshape(3, 3), np.array(c[12:])))
            if images[i] not in rec.shots:
                ck.expect(not any(c), "bundler-missing", what + "%s has numbers %r" % (images[i], c))
        got = []
        for _ in range(m):
            x = np.array([float(v) for v in take(3)])
            col = tuple(int(v) for v in take(3))
            views = []
            for _ in range(int(take(1)[0])):
                i, f, a, b = take(4)
                s = images[int(i)]
                views.append((s, int(f)))
                if s not in rec.shots:
                    ck.fail("bundler-views", what + "view in %s" % s)
                    continue
                foc, k1, k2, R, t = cams[int(i)]
                P = R @ x + t
                ck.expect(P[2] < 0, "bundler-front", what + "point behind %s" % s)
                if rec.shots[s].camera.projection_type == "perspective":
                    p = -P[:2] / P[2]
                    r2 = p @ p
                    q = foc * (1 + k1 * r2 + k2 * r2 * r2) * p
                    ck.expect(np.abs(q - (float(a), float(b))).max() < 0.05, "bundler-projection", what + "point in %s at %r, measured at %r" % (s, q, (a, b)))
                else:
                    ck.expect(abs(foc - KINDS["b"][1][0] * 200) < 0.2 * foc, "bundler-focal", what + "focal %g" % foc)
            got.append((tuple(np.float32(x)), col, tuple(sorted(views))))
        want = []
        for t, pt in rec.points.items():
            if und:
                v = [(s, w.uobs[s, t][0]) for s in images if (s, t) in w.uobs]
                if not any(tt == t for _, tt in w.uobs):
                    continue
            else:
                v = [(s, o.id) for s, o in w.tm.get_track_observations(t).items() if s in rec.shots and s in images]
            want.append((tuple(np.float32(pt.coordinates)), tuple(int(c) for c in pt.color), tuple(sorted(v))))
        ck.expect(sorted(got) == sorted(want), "bundler-points", what + "%d points instead of %d: %r, %r" % (len(got), len(want), sorted(got)[:1], sorted(want)[:1]))
        ck.expect(pos[0] == len(words), "bundler-end", what + "left over %r" % words[pos[0]:][:5])


# ---- PMVS ----------------------------------------------------------------

def pmvs(ck, w, what, path, recs, und, shots):
    what = "pmvs of %s with %r: " % (what, shots)
    out = os.path.join(w.root, "out", "pmvs")
    shutil.rmtree(out, ignore_errors=True)
    export_pmvs.run_dataset(w.data, True, path, out, und)
    tm = w.utm if und else w.tm
    for r, rec in enumerate(recs):
        d = os.path.join(out, "recon%d" % r)
        names = [s for s in rec.shots.keys() if s in shots[r]]
        vis = open(os.path.join(d, "vis.dat")).read().split("\n")
        ck.expect(vis[0] == "VISDATA" and int(vis[1]) == len(names), "pmvs-vis", what + repr(vis[:2]))
        ck.expect(sorted(os.listdir(os.path.join(d, "txt"))) == ["%08d.txt" % i for i in range(len(names))]
                  and sorted(os.listdir(os.path.join(d, "visualize"))) == ["%08d.jpg" % i for i in range(len(names))] and os.path.isdir(os.path.join(d, "models")),
                  "pmvs-files", what + repr(os.listdir(os.path.join(d, "txt"))))
        opts = dict(x.split(" ", 1) for x in open(os.path.join(d, "pmvs_txt")).read().split("\n") if x)
        ck.expect(opts.get("timages") == "-1 0 %d" % len(names) and opts.get("useVisData") == "1" and opts.get("oimages") == "0", "pmvs-options", what + repr(opts))
        rows = {}
        for x in vis[2:]:
            v = [int(y) for y in x.split()]
            if v:
                rows[v[0]] = v[2:]
                ck.expect(v[1] == len(v) - 2, "pmvs-vis", what + x)
        seen = {s: set(tm.get_shot_observations(s)) if s in tm.get_shot_ids() else set() for s in names}
        ck.expect(sorted(rows) == list(range(len(names))), "pmvs-vis", what + repr(rows))
        for i, s in enumerate(names):
            want = [j for j, o in enumerate(names) if o != s and seen[s] & seen[o]]
            ck.expect(sorted(rows.get(i, [])) == want, "pmvs-vis", what + "%s next to %r instead of %r" % (s, rows.get(i), want))
            L = open(os.path.join(d, "txt", "%08d.txt" % i)).read().split("\n")
            ck.expect(L[0].strip().lstrip("# ") == "CONTOUR", "pmvs-contour", what + L[0])
            P = np.array([[float(x) for x in row.split()] for row in L[1:4]])
            img = cv2.imread(os.path.join(d, "visualize", "%08d.jpg" % i))
            h, wd = img.shape[:2]
            shot = rec.shots[s]
            ck.expect((wd, h) == (shot.camera.width, shot.camera.height), "pmvs-size", what + repr(img.shape))
            if und:
                src = cv2.imread(os.path.join(w.u.data_path, "images", s))
                ck.expect(np.abs(img.astype(float) - src).mean() < 12, "pmvs-image", what + "%s has other colours" % s)
            else:
                mid = np.median(img.reshape(-1, 3), axis=0)
                ck.expect(np.abs(mid - (90, 60, 30)).max() < 12, "pmvs-image", what + "%s has colours %r" % (s, mid))
                if shot.camera.projection_type == "perspective":
                    # the boundary between the two colours of the image, seen through the lens
                    kind, par = KINDS[w.kind[s]]
                    m = max(wd, h)
                    for x in range(1, wd, 6):
                        ys = [c13.project(kind, *par, ((x - (wd - 1) / 2) / m / par[0], (y - (h - 1) / 2) / m / par[0], 1.0))[1] * m + (h - 1) / 2 for y in range(h)]
                        for y, row in enumerate(ys):
                            if 1.7 < abs(row - (2 * h // 3 - 0.5)) < 6 and 0 < row < h - 1:
                                low = np.abs(img[y, x].astype(float) - (40, 10 * len(s), 200)).sum() < np.abs(img[y, x].astype(float) - (90, 60, 30)).sum()
                                ck.expect(low == (row > 2 * h // 3), "pmvs-undistorted", what + "pixel %r of %s is %r, from row %g of %d" % ((x, y), s, img[y, x], row, h))
            for t in seen[s]:
                if t in rec.points.keys():
                    q = P @ np.append(rec.points[t].coordinates, 1)
                    if und:
                        v = w.uobs[s, t][1]
                    else:
                        X = w.R[s] @ (np.asarray(rec.points[t].coordinates) - w.C[s])
                        v = shot.camera.focal * X[:2] / X[2]
                        if shot.camera.projection_type != "perspective":
                            continue
                    want = v * max(wd, h) + (np.array([wd, h]) - 1) / 2
                    ck.expect(q[2] > 0 and np.abs(q[:2] / q[2] - want).max() < 0.75, "pmvs-projection", what + "%s in %s at %r, measured at %r" % (t, s, q[:2] / q[2], want))


# ---- PLY ----------------------------------------------------------------

def read_ply(path):
    lines = open(path, encoding="utf-8").read().split("\n")
    assert lines[0] == "ply" and lines[1] == "format ascii 1.0", lines[:2]
    i, props, n = 2, [], None
    while lines[i] != "end_header":
        v = lines[i].split()
        if v[0] == "element":
            n = int(v[2])
        elif v[0] == "property":
            props.append(v[2])
        i += 1
    rows = [[float(x) for x in row.split()] for row in lines[i + 1:] if row.strip()]
    assert len(rows) == n, (len(rows), n)
    assert all(len(r) == len(props) for r in rows), (props, rows[0])
    return props, rows


def ply(ck, w, what):
    rec = w.data.load_reconstruction()[0]
    for nc, np_, nv in itertools.product((False, True), repeat=3):
        export_ply.run_dataset(w.data, nc, np_, False, nv)
        props, rows = read_ply(os.path.join(w.root, "reconstruction.ply"))
        wt = "ply of %s, %r: " % (what, (nc, np_, nv))
        ck.expect(props == ["x", "y", "z"] + props[3:6] + (["views"] if nv else []) and [p[-1] if len(p) == 1 else p for p in props[3:6]] in
                  (["red", "green", "blue"], ["diffuse_red", "diffuse_green", "diffuse_blue"]), "ply-header", wt + repr(props))
        pts = sorted(tuple(np.float32(r[:3])) + tuple(r[3:]) for r in rows[:0 if np_ else len(rec.points)])
        want = [] if np_ else sorted(tuple(np.float32(p.coordinates)) + tuple(float(int(c)) for c in p.color)
                                     + ((float(len(w.tm.get_track_observations(t))),) if nv else ()) for t, p in rec.points.items())
        ck.expect(pts == want, "ply-points", wt + "%r instead of %r" % (pts[:1], want[:1]))
        rest = rows[0 if np_ else len(rec.points):]
        ck.expect(len(rest) == (0 if nc else 30 * len(rec.shots)), "ply-cameras", wt + "%d rows" % len(rest))
        have = {}
        for r in rest:
            have.setdefault(tuple(r[3:6]), []).append(np.array(r[:3]))
            ck.expect(len(r) == (7 if nv else 6) and (not nv or r[6] == 0), "ply-cameras", wt + repr(r))
        if not nc:
            for axis in range(3):
                col = tuple(255.0 * np.eye(3)[axis])
                for s in rec.shots.keys():
                    for dpt in np.linspace(0, 2, 10):
                        x = w.C[s] + dpt * w.R[s][axis]
                        ck.expect(any(np.abs(x - y).max() < 1e-6 for y in have.get(col, [])), "ply-axes", wt + "axis %d of %s" % (axis, s))
        ck.outcome((what, nc, np_, nv))
        ck.ev()
    # without tracks: the views the points know of themselves
    full = w.data.load_reconstruction()[0]
    for k, (t, p) in enumerate(full.points.items()):
        for s, o in w.tm.get_track_observations(t).items():
            if s in full.shots and (k + len(s)) % 3:
                full.add_observation(s, t, o)
    count = {t: p.number_of_observations() for t, p in full.points.items()}
    for tm in (None, w.tm):
        w.data.save_ply(full, tm, point_num_views=True)
        props, rows = read_ply(os.path.join(w.root, "reconstruction.ply"))
        got = sorted(tuple(np.float32(r[:3])) + (r[6],) for r in rows[:len(full.points)])
        want = sorted(tuple(np.float32(p.coordinates)) + (float(count[t] or (len(w.tm.get_track_observations(t)) if tm is not None else 0)),) for t, p in full.points.items())
        ck.ev()
        ck.expect(got == want, "ply-views", "ply of %s with its own views%s: %r instead of %r" % (what, " and tracks" if tm is not None else "", got[:1], want[:1]))


def depth_ply(ck, w, what):
    """the depth maps as points: every pixel with depth at its place, nothing else"""
    shots = list(w.urec.shots.keys())[:2]
    size = (24, 18)
    for k, s in enumerate(shots):
        d = np.zeros((size[1], size[0]))
        d[3:15:2, 2:20:3] = 2.0
        d[4, 5:9] = [1, 3, 5, 7 + k]
        os.makedirs(os.path.dirname(w.u.depthmap_file(s, "x")), exist_ok=True)
        for kind in ("clean", "raw")[:k + 1]:
            np.savez_compressed(w.u.depthmap_file(s, kind + ".npz"), depth=d * (2 if kind == "raw" else 1), plane=np.zeros(1), score=np.zeros(1))
    export_ply.run_dataset(w.data, True, True, True, False)
    for k, s in enumerate(w.urec.shots.keys()):
        for kind in ("clean", "raw"):
            f = w.u.depthmap_file(s, kind + ".ply")
            if s not in shots[:2] or kind not in ("clean", "raw")[:k + 1]:
                ck.expect(not os.path.exists(f), "depth-ply-files", "%s: %s exists" % (what, f))
                continue
            props, rows = read_ply(f)
            d = np.load(w.u.depthmap_file(s, kind + ".npz"))["depth"]
            img = cv2.resize(w.u.load_undistorted_image(s), size, interpolation=cv2.INTER_AREA)
            px = [(y, x) for y in range(size[1]) for x in range(size[0]) if d[y, x]]
            ck.expect(len(px) == len(rows), "depth-ply-rows", "%s: %d rows of %d" % (what, len(rows), len(px)))
            for (y, x), r in zip(px, rows):
                q, z = w.uproject(s, r[:3])
                q = q * max(size) + (np.array(size) - 1) / 2
                ck.expect(abs(z - d[y, x]) < 1e-6 * z and np.abs(q - (x, y)).max() < 0.75, "depth-ply-place", "%s: pixel %r with depth %g is at %r with depth %g" % (what, (x, y), d[y, x], q, z))
                ck.expect(np.abs(np.array(r[3:6]) - img[y, x]).max() <= 1, "depth-ply-colour", "%s: pixel %r has colour %r instead of %r" % (what, (x, y), r[3:6], img[y, x]))


def distorted(ck, root, kinds, rig, nrec):
    w = World(root, kinds, rig, nrec)
    recs = w.data.load_reconstruction()
    what = "%s rig %s, %d reconstructions" % (kinds, rig, nrec)
    bundler(ck, w, what, recs, False, w.data.images())
    ck.ev()
    for n in range(len(w.names)):
        for only in itertools.combinations(w.names[::-1], n):
            bundler(ck, w, what, recs, False, only, True)
            ck.ev()
    names = [list(r.shots.keys()) for r in recs]
    if set(kinds) <= {"p", "q"}:
        for only in [None] + [c for n in range(len(w.names) + 1) for c in itertools.combinations(w.names, n)]:
            path = ""
            if only is not None:
                path = os.path.join(root, "list.txt")
                open(path, "w").write("\n".join(only))
            pmvs(ck, w, what, path, recs, False, [[s for s in n if only is None or s in only] for n in names])
            ck.ev()
            ck.outcome((what, only))
    ply(ck, w, what)


# ---- COLMAP ----------------------------------------------------------------

MODELS = {1: ("PINHOLE", 4), 2: ("SIMPLE_RADIAL", 4), 3: ("RADIAL", 5), 4: ("OPENCV", 8), 5: ("OPENCV_FISHEYE", 8), 6: ("FULL_OPENCV", 12), 9: ("RADIAL_FISHEYE", 5)}


def colmap_project(model, p, X):
    """the camera models of COLMAP (src/colmap/sensor/models.h); the middle of the first pixel is (0.5, 0.5)"""
    u, v = X[0] / X[2], X[1] / X[2]
    if model in (3, 6):
        r2 = u * u + v * v
        if model == 3:
            f, cx, cy, k1, k2 = p
            d = 1 + k1 * r2 + k2 * r2 * r2
            return np.array([f * u * d + cx, f * v * d + cy])
        fx, fy, cx, cy, k1, k2, p1, p2, k3, k4, k5, k6 = p
        d = (1 + k1 * r2 + k2 * r2 ** 2 + k3 * r2 ** 3) / (1 + k4 * r2 + k5 * r2 ** 2 + k6 * r2 ** 3)
        a = u * d + 2 * p1 * u * v + p2 * (r2 + 2 * u * u)
        b = v * d + 2 * p2 * u * v + p1 * (r2 + 2 * v * v)
        return np.array([fx * a + cx, fy * b + cy])
    r = math.hypot(u, v)
    th = math.atan(r)
    s = th / r if r > 1e-12 else 1.0
    t2 = th * th
    if model == 9:
        f, cx, cy, k1, k2 = p
        d = 1 + k1 * t2 + k2 * t2 * t2
        return np.array([f * u * s * d + cx, f * v * s * d + cy])
    fx, fy, cx, cy, k1, k2, k3, k4 = p
    d = 1 + k1 * t2 + k2 * t2 ** 2 + k3 * t2 ** 3 + k4 * t2 ** 4
    return np.array([fx * u * s * d + cx, fy * v * s * d + cy])


def read_colmap(path, binary):
    cams, images, points = {}, {}, {}
    if binary:
        b = Bin(open(os.path.join(path, "cameras.bin"), "rb").read())
        for _ in range(b.get("Q")):
            i, m, wd, h = b.get("iiQQ")
            assert i not in cams
            cams[i] = (m, wd, h, b.get("%dd" % MODELS[m][1]))
        assert b.i == len(b.b)
        b = Bin(open(os.path.join(path, "images.bin"), "rb").read())
        for _ in range(b.get("Q")):
            i = b.get("I")
            q, t, c = b.get("4d"), b.get("3d"), b.get("I")
            e = b.b.index(b"\0", b.i)
            n = b.b[b.i:e].decode()
            b.i = e + 1
            assert i not in images
            images[i] = (q, t, c, n, [b.get("ddq") for _ in range(b.get("Q"))])
        assert b.i == len(b.b)
        b = Bin(open(os.path.join(path, "points3D.bin"), "rb").read())
        for _ in range(b.get("Q")):
            i = b.get("Q")
            x, c, e = b.get("3d"), b.get("3B"), b.get("d")
            assert i not in points
            points[i] = (x, c, [b.get("ii") for _ in range(b.get("Q"))])
        assert b.i == len(b.b)
        return cams, images, points

    def rows(f):
        return [x for x in open(os.path.join(path, f), encoding="utf-8").read().split("\n") if not x.startswith("#")]
    ids = {v[0]: k for k, v in MODELS.items()}
    for x in rows("cameras.txt"):
        v = x.split()
        if v:
            cams[int(v[0])] = (ids[v[1]], int(v[2]), int(v[3]), tuple(float(y) for y in v[4:]))
    L = rows("images.txt")
    for x, y in zip(L[::2], L[1::2]):
        v = x.split()
        p = [float(z) for z in y.split()]
        images[int(v[0])] = (tuple(map(float, v[1:5])), tuple(map(float, v[5:8])), int(v[8]), v[9], [(p[k], p[k + 1], int(p[k + 2])) for k in range(0, len(p), 3)])
    for x in rows("points3D.txt"):
        v = x.split()
        if v:
            points[int(v[0])] = (tuple(map(float, v[1:4])), tuple(map(int, v[4:7])), [(int(v[k]), int(v[k + 1])) for k in range(8, len(v), 2)])
    return cams, images, points


def colmap(ck, root, kinds, rig, nrec, binary):
    w = World(root, kinds, rig, nrec)
    what = "colmap of %s rig %s, %d reconstructions, %s: " % (kinds, rig, nrec, "binary" if binary else "text")
    export_colmap.run_dataset(w.data, binary)
    d = os.path.join(root, "colmap_export")
    cams, images, points = read_colmap(d, binary)
    recs = w.data.load_reconstruction()
    db = sqlite3.connect(os.path.join(d, "colmap_database.db"))
    dbcams = {r[0]: (r[1], r[2], r[3], np.frombuffer(r[4])) for r in db.execute("SELECT camera_id, model, width, height, params FROM cameras")}
    dbimages = {r[0]: (r[1], r[2]) for r in db.execute("SELECT image_id, name, camera_id FROM images")}
    kps = {r[0]: np.frombuffer(r[3], np.float32).reshape(r[1], r[2]) for r in db.execute("SELECT image_id, rows, cols, data FROM keypoints")}
    tol = 1e-9 if binary else 1e-6
    num = 1e-3 if binary else 5e-2
    ck.expect(sorted(n for n, _ in dbimages.values()) == sorted(w.data.images()), "colmap-images", what + repr(dbimages))
    ck.expect(len(dbcams) == len(w.cams) and set(cams) == {c for r in recs for c in [k for k, v in dbcams.items()]}, "colmap-cameras", what + repr((dbcams, cams)))
    for c, v in cams.items():
        o = dbcams[c]
        ck.expect(v[:3] == o[:3] and len(v[3]) == len(o[3]) == MODELS[v[0]][1] and np.abs(np.array(v[3]) - o[3]).max() < tol, "colmap-camera", what + "%r in the database is %r" % (v, o))
    ck.expect(sorted(v[3] for v in images.values()) == sorted(n for r in w.recs for n in r), "colmap-shots", what + repr([v[3] for v in images.values()]))
    want_pts = sum(len(r.points) for r in recs)
    ck.expect(len(points) == want_pts, "colmap-points", what + "%d points instead of %d" % (len(points), want_pts))
    for i, kp in kps.items():
        n = dbimages[i][0]
        s = SIZE[w.kind[n]]
        want = w.feat[n][:, :2].astype(float) * max(s) + np.array(s) / 2
        ck.expect(kp.shape[0] == len(want) and np.abs(kp[:, :2] - want).max() < 1e-3, "colmap-keypoints", what + "keypoints of %s: %r instead of %r" % (n, kp[:2], want[:2]))
    seen = {}
    for i, (q, t, c, n, p2) in images.items():
        ck.expect(dbimages[i] == (n, c), "colmap-image-id", what + "image %d is %r in the database and %r" % (i, dbimages[i], (n, c)))
        ck.expect(abs(np.linalg.norm(q) - 1) < 1e-5, "colmap-quaternion", what + repr(q))
        R = quat(q)
        ck.expect(len(p2) == len(kps[i]), "colmap-list", what + "%d features of %s, %d in the database" % (len(p2), n, len(kps[i])))
        r = [k for k, names in enumerate(w.recs) if n in names][0]
        for f, (x, y, pid) in enumerate(p2):
            ck.expect(np.abs(kps[i][f, :2] - (x, y)).max() < 1e-3, "colmap-feature", what + "feature %d of %s at %r and %r" % (f, n, (x, y), kps[i][f]))
            if pid == -1:
                continue
            if pid not in points:
                ck.fail("colmap-dangling", what + "feature %d of %s of missing point %d" % (f, n, pid))
                continue
            ck.ev()
            seen.setdefault(pid, set()).add((i, f))
            X = R @ np.array(points[pid][0]) + t
            m, wd, h, par = cams[c]
            g = colmap_project(m, par, X)
            ck.expect(X[2] > 0 and np.abs(g - (x, y)).max() < num, "colmap-projection", what + "point %d in %s at %r, measured at %r" % (pid, n, g, (x, y)))
        linked = {f for (s, j), f in w.obs.items() if s == n and "t%d" % j in recs[r].points.keys()}
        ck.expect({f for f, p in enumerate(p2) if p[2] != -1} == linked, "colmap-links", what + "features %r of %s have points instead of %r" % (sorted(f for f, p in enumerate(p2) if p[2] != -1), n, sorted(linked)))
    for pid, (x, col, track) in points.items():
        ck.expect(set(track) == seen.get(pid, set()) and len(track) == len(set(track)), "colmap-tracks", what + "point %d has track %r, images list %r" % (pid, track, seen.get(pid)))
    have = sorted((tuple(np.round(v[0], 4)), tuple(v[1])) for v in points.values())
    want = sorted((tuple(np.round(p.coordinates, 4)), tuple(int(c) for c in p.color)) for r in recs for p in r.points.values())
    ck.expect(len(have) == len(want) and all(np.abs(np.array(a[0]) - b[0]).max() < 2e-4 and a[1] == b[1] for a, b in zip(have, want)), "colmap-coordinates", what + repr((have[:1], want[:1])))
    # pairs
    names = {n: i for i, (n, _) in dbimages.items()}
    exp = {}
    for (a, b), m in w.matches.items():
        if len(m) > 10:
            i, j = names[a], names[b]
            exp[min(i, j), max(i, j)] = {p if i < j else p[::-1] for p in m}
    tabs = {t: {r[0]: np.frombuffer(r[3], np.uint32).reshape(r[1], r[2]) for r in db.execute("SELECT pair_id, rows, cols, data FROM " + t)} for t in ("matches", "two_view_geometries")}
    geom = {r[0]: (r[1], np.frombuffer(r[2]).reshape(3, 3)) for r in db.execute("SELECT pair_id, config, F FROM two_view_geometries")}
    ids = {k: (k // (2**31 - 1), k % (2**31 - 1)) for k in tabs["matches"]}
    ck.expect(set(ids.values()) == set(exp) and set(tabs["matches"]) == set(tabs["two_view_geometries"]), "colmap-pairs", what + "%r instead of %r" % (sorted(ids.values()), sorted(exp)))
    for k, (i, j) in ids.items():
        for t in tabs:
            m = {tuple(int(x) for x in p) for p in tabs[t].get(k, [])}
            ck.expect(m <= exp.get((i, j), set()) and len(m) >= 10, "colmap-matches", what + "%s of %r: %r" % (t, (i, j), sorted(m - exp.get((i, j), set()))[:3]))
        cfg, F = geom[k]
        ck.expect(cfg == 2, "colmap-config", what + repr(cfg))
        for a, b in tabs["two_view_geometries"][k]:
            x1, x2 = np.append(kps[i][a, :2], 1), np.append(kps[j][b, :2], 1)
            l = F @ x1
            e = abs(x2 @ l) / max(1e-300, math.hypot(l[0], l[1]))
            ck.expect(e < 9, "colmap-F", what + "match %r of %r is %g pixels from its epipolar line" % ((a, b), (i, j), e))
    ini = open(os.path.join(d, "project.ini")).read()
    vals = dict(x.split("=", 1) for x in ini.split("\n") if "=" in x)
    ck.expect(vals.get("database_path") == os.path.join(d, "colmap_database.db") and vals.get("image_path") == os.path.join(root, "images"), "colmap-ini", what + repr(vals))
    ck.outcome((kinds, rig, nrec, binary))
    db.close()


def overrides(ck, root, kinds, which, binary):
    """cameras given for the dataset replace those found in the images"""
    w = World(root, kinds)
    over = {}
    for i, k in enumerate(kinds):
        if which >> i & 1:
            c = c13.make(KINDS[k][0], *((KINDS[k][1][0] * 1.25,) + KINDS[k][1][1:]))
            c.id = "cam " + k
            c.width, c.height = SIZE[k]
            over[c.id] = c
    w.data.save_camera_models_overrides(over)
    export_colmap.run_dataset(w.data, binary)
    db = sqlite3.connect(os.path.join(root, "colmap_export", "colmap_database.db"))
    cams = {r[0]: np.frombuffer(r[4]) for r in db.execute("SELECT camera_id, model, width, height, params FROM cameras")}
    for n, c in db.execute("SELECT name, camera_id FROM images"):
        k = w.kind[n]
        f = KINDS[k][1][0] * (1.25 if "cam " + k in over else 1) * max(SIZE[k])
        ck.ev()
        ck.expect(abs(cams[c][0] - f) < 1e-6 * f, "colmap-overrides", "%s overrides %r: focal of %s %g instead of %g" % (kinds, sorted(over), n, cams[c][0], f))
    db.close()
    ck.outcome((kinds, which))


# ---- geographic coordinates ----------------------------------------------------

PROJ = ["+proj=utm +zone=32 +ellps=WGS84 +datum=WGS84 +units=m +no_defs", "+proj=utm +zone=33 +ellps=WGS84 +datum=WGS84 +units=m +no_defs",
        "+proj=stere +lat_0=47 +lon_0=8 +ellps=WGS84 +units=m", "+proj=merc +ellps=WGS84 +units=m"]


def geo(ck, root, kinds, rig, nrec, k):
    w = World(root, kinds, rig, nrec)
    w.undistort()
    proj = pyproj.Proj(PROJ[k])

    def to(x):
        lat, lon, alt = REF.to_lla(*[float(v) for v in x])
        e, n = proj(lon, lat)
        return np.array([e, n, alt])
    X = np.array([[1.0 * i, -2.0 + i, 0.3 * i] for i in range(7)])
    N = np.array([rod((0.1 * i, 0.3, 0.2 * i))[2] for i in range(7)])
    col = np.arange(21).reshape(7, 3)
    lab = np.arange(7) + 3
    w.u.save_point_cloud(X, N, col, lab)
    J = np.array([(to(1e0 * e) - to(-1e0 * e)) / 2 for e in np.eye(3)]).T
    files = {"transformation": "geocoords_transformation.txt", "image": "image_geocoords.tsv", "reconstruction": "reconstruction.geocoords.json",
             "dense": "undistorted/depthmaps/merged.geocoords.ply"}
    for sel in itertools.product((False, True), repeat=4):
        what = "%s rig %s nrec %d %r projection %d: " % (kinds, rig, nrec, sel, k)
        if not ck.quick or sum(sel) in (1, 4):
            one = sum(sel) == 1
            for output in (["", "out.x"] if one else [""]):
                for f in list(files.values()) + ["out.x"]:
                    if os.path.exists(os.path.join(root, f)):
                        os.unlink(os.path.join(root, f))
                export_geocoords.run_dataset(w.data, PROJ[k], *sel, output)
                ck.ev()
                for (name, f), on in zip(files.items(), sel):
                    f = output or f
                    ck.expect(os.path.exists(os.path.join(root, f)) == bool(on or (output and any(sel))), "geo-files", what + f)
                    if on:
                        geo_file(ck, w, what, name, os.path.join(root, f), to, J, X, N, col, lab)
                ck.outcome((kinds, rig, nrec, k, sel, output))


def geo_file(ck, w, what, name, path, to, J, X, N, col, lab):
    far = 5e-4
    if name == "transformation":
        T = np.array([[float(x) for x in row.split()] for row in open(path).read().split("\n") if row])
        ck.expect(T.shape == (4, 4) and np.array_equal(T[3], [0, 0, 0, 1]), "geo-matrix", what + repr(T))
        for x in w.points:
            ck.expect(np.abs(T[:3, :3] @ x + T[:3, 3] - to(x)).max() < far, "geo-matrix", what + "%r is at %r instead of %r" % (x, T[:3, :3] @ x + T[:3, 3], to(x)))
    elif name == "image":
        rows = [r.split("\t") for r in open(path, encoding="utf-8").read().split("\n") if r]
        ck.expect(rows[0] == ["Image", "X", "Y", "Z"] and sorted(r[0] for r in rows[1:]) == sorted(n for r in w.recs for n in r), "geo-images", what + repr([r[0] for r in rows]))
        for r in rows[1:]:
            g = np.array([float(x) for x in r[1:]])
            ck.expect(np.abs(g - to(w.C[r[0]])).max() < far, "geo-position", what + "%s at %r instead of %r" % (r[0], g, to(w.C[r[0]])))
    elif name == "reconstruction":
        recs = w.data.load_reconstruction(os.path.basename(path))
        ck.expect([sorted(r.shots.keys()) for r in recs] == [sorted(n) for n in w.recs], "geo-shots", what + repr([sorted(r.shots.keys()) for r in recs]))
        for rec, old in zip(recs, w.data.load_reconstruction()):
            ck.expect(sorted(rec.points.keys()) == sorted(old.points.keys()), "geo-points", what + "other points")
            for t, p in rec.points.items():
                g = to(old.points[t].coordinates)
                ck.expect(np.abs(np.asarray(p.coordinates) - g).max() < far, "geo-point", what + "%s at %r instead of %r" % (t, p.coordinates, g))
            for s in rec.shots.keys():
                sh = rec.shots[s]
                o = np.asarray(sh.pose.get_origin())
                arm = np.linalg.norm(w.C[s] - w.hub) if w.rig and any(s in n[:2] for n in w.recs) else 0        # rigs are rigid, projections are not
                tol = 5e-3 + 1.1 * arm * np.abs(np.linalg.svd(J)[1] - 1).max()
                ck.expect(np.abs(o - to(w.C[s])).max() < tol, "geo-shot", what + "%s at %r instead of %r" % (s, o, to(w.C[s])))
                Q = np.asarray(sh.pose.get_rotation_matrix())
                for a in range(3):
                    U, _, Vt = np.linalg.svd(J)            # the rotation next to the transformation
                    v = U @ Vt @ w.R[s][a]
                    ck.expect(np.abs(Q[a] - v).max() < 1e-4, "geo-axis", what + "axis %d of %s is %r instead of %r" % (a, s, Q[a], v))
    else:
        props, rows = read_ply(path)
        ck.expect(len(rows) == 7, "geo-dense", what + "%d rows" % len(rows))
        for i, r in enumerate(rows):
            n = J @ N[i]
            ck.expect(np.abs(np.array(r[:3]) - to(X[i])).max() < 2e-3, "geo-dense", what + "%r instead of %r" % (r[:3], to(X[i])))
            ck.expect(np.abs(np.array(r[3:6]) - n).max() < 6e-3, "geo-normal", what + "normal %r instead of %r" % (r[3:6], n))
            ck.expect([int(v) for v in r[6:]] == [int(v) for v in col[i]] + [int(lab[i])], "geo-colour", what + repr(r))


def gps(ck, root, kinds, rig, nrec):
    w = World(root, kinds, rig, nrec)
    what = "%s rig %s nrec %d: " % (kinds, rig, nrec)

    def run(name, *args):
        old = sys.argv, os.getcwd()
        try:
            sys.argv = [name] + list(args)
            runpy.run_path(os.path.join(boot.REPO, "bin", name), run_name="__main__")
        finally:
            sys.argv = old[0]
    run("export_gps", root, "--output", os.path.join(root, "gps.tsv"))
    rows = [r.split("\t") for r in open(os.path.join(root, "gps.tsv"), encoding="utf-8").read().split("\n")]
    want = sorted(n for r in w.recs for n in r)
    ck.expect(rows[0] == ["image", "latitude", "longitude", "altitude", "compass_angle"] and [r[0] for r in rows[1:]] == want, "gps-images", what + repr(rows))
    lla = {}
    for r in rows[1:]:
        v = [float(x) for x in r[1:]]
        lla[r[0]] = REF.to_lla(*w.C[r[0]])
        z = w.R[r[0]][2]
        ck.ev()
        ck.expect(np.abs(np.array(v[:3]) - lla[r[0]]).max() < 1e-6, "gps-position", what + "%r instead of %r" % (r, lla[r[0]]))
        a = math.degrees(math.atan2(z[0], z[1])) % 360
        ck.expect(math.hypot(z[0], z[1]) < 1e-9 or abs((v[3] - a + 180) % 360 - 180) < 1e-6, "gps-compass", what + "%r instead of %g" % (r, a))
    run("export_geojson", root)
    g = json.load(open(os.path.join(root, "reconstruction.geojson")))["features"]
    ck.expect(len(g) == len(want), "geojson", what + "%d features" % len(g))
    left = dict(lla)
    for f in g:
        lon, lat, alt = f["geometry"]["coordinates"]
        near = [n for n, x in left.items() if abs(x[0] - lat) < 1e-8 and abs(x[1] - lon) < 1e-8 and abs(x[2] - alt) < 1e-5]
        ck.expect(len(near) == 1, "geojson-position", what + repr(f))
        for n in near:
            left.pop(n)
    e = [(f["geometry"]["coordinates"]) for f in json.load(open(os.path.join(root, "reconstruction.gps.geojson")))["features"]]
    exp = sorted(47.0 + i * 1e-5 for i, n in enumerate(w.names) if i != 1)
    ck.expect(np.allclose(sorted(x[1] for x in e), exp, atol=1e-12, rtol=0) and all(x[0] == 8.5 for x in e), "geojson-gps", what + repr(e))
    ck.outcome((kinds, rig, nrec))
