"""C40: reconstructions of other programs are imported as what they describe, and what was exported comes back."""
import itertools
import os
import runpy
import shutil
import sqlite3
import struct
import sys

os.environ.setdefault("MPLBACKEND", "Agg")
import cv2
import numpy as np
from opensfm import dataset, geo
from opensfm.actions import export_bundler, export_colmap

import boot
import c13
import c29
from scene import rod

LEVEL = "exploration"
RULE = ("all sequences of up to three perspective and fisheye images x rigs x one or two reconstructions x layouts of keypoints x images "
        "with descriptors: exported to COLMAP, completed as COLMAP does, imported by the real program into a new dataset, and compared with "
        "the original; the fused point cloud of COLMAP against depth maps; the same for Bundler; non-trivial: distinct inputs")
ASSUMPTIONS = ["models of COLMAP that the import does not support (it says so) are not covered", "features come with descriptors, as COLMAP writes them"]


def cases(ck):
    ks = ["".join(s) for n in (1, 2, 3) for s in itertools.product("pf", repeat=n)]
    out = [["colmap", k, False, nrec, 6, 0] for k in ("q", "g", "qg", "gp", "fq", "pqg") for nrec in (1, 2)]
    out += [["colmap", k, rig, nrec, cols, drop] for k in ks for rig in (False, True) for nrec in (1, 2) for cols in (2, 4, 6) for drop in (0, 1)
           if (len(k) > 1 or not rig) and (not ck.quick or (len(k) < 3 and cols != 2) or (cols + 2 * nrec + rig + drop) % 5 == 1)]
    out += [["pinhole", i] for i in range(3)]
    out += [["turns", i] for i in range(len(TURNS))]
    out += [["fused", k, rig, miss] for k in ("pp", "pf", "ff", "qg", "gqp") for rig in (False, True) for miss in (False, True)]
    bs = ["p", "pp", "ppp"]
    out += [["bundler", k, rig, nrec, r, lst] for k in bs for rig in (False, True) for nrec in (1, 2) for r in range(nrec) for lst in range(2) if len(k) > 1 or not rig]
    return out


def check(ck, case):
    root = os.path.join(ck.scratch, "w")
    shutil.rmtree(root, ignore_errors=True)
    globals()[case[0]](ck, root, *case[1:])
    shutil.rmtree(root, ignore_errors=True)


def run(name, *args):
    old = sys.argv
    out = sys.stdout
    try:
        sys.stdout = open(os.devnull, "w")
        sys.argv = [name] + list(args)
        m = runpy.run_path(os.path.join(boot.REPO, "bin", name), run_name="__main__")
        if name.endswith(".py"):
            m["main"]()
    finally:
        sys.stdout.close()
        sys.stdout = out
        sys.argv = old


def affine(n, i):
    """scale and orientation of feature i of image n, and what COLMAP keeps of it"""
    s, o = 2.0 + 0.25 * (i % 7), -3.0 + 0.37 * (i % 16)
    # the first column has the direction of the feature; the lengths of the columns may differ
    t, a = o + (0.2 if i % 3 == 1 else 0), 0.4 if i % 4 == 2 else 0
    return s, o, np.array([(s - a) * np.cos(o), -(s + a) * np.sin(t), (s - a) * np.sin(o), (s + a) * np.cos(t)])


def complete(w, db, cols, drop):
    """what COLMAP has more: keypoints with scale and orientation, descriptors"""
    out = {}
    for i, n in db.execute("SELECT image_id, name FROM images").fetchall():
        r, c, b = db.execute("SELECT rows, cols, data FROM keypoints WHERE image_id=?", (i,)).fetchone()
        kp = np.frombuffer(b, np.float32).reshape(r, c)[:, :2]
        rows = []
        for k, p in enumerate(kp):
            s, o, a = affine(n, k)
            rows.append(list(p) + ([] if cols == 2 else [s, o] if cols == 4 else list(a)))
        arr = np.array(rows, np.float32)
        db.execute("UPDATE keypoints SET cols=?, data=? WHERE image_id=?", (cols, arr.tobytes(), i))
        if drop and n == w.names[-1]:
            continue
        desc = (np.arange(r * 128).reshape(r, 128) % 251 + i).astype(np.uint8)
        db.execute("INSERT INTO descriptors VALUES (?, ?, ?, ?)", (i, r, 128, desc.tobytes()))
        out[n] = desc
    if cols == 4:
        # some pairs have few matches
        for q, (k, b) in enumerate(db.execute("SELECT pair_id, data FROM two_view_geometries ORDER BY pair_id").fetchall()):
            m = np.frombuffer(b, np.uint32).reshape(-1, 2)[:1 + 2 * q]
            db.execute("UPDATE two_view_geometries SET rows=?, data=? WHERE pair_id=?", (len(m), m.tobytes(), k))
    db.commit()
    return out


def same_camera(a, b):
    return a.projection_type == b.projection_type and (a.width, a.height) == (b.width, b.height) and np.allclose(a.get_parameters_values(), b.get_parameters_values(), atol=1e-9)


def colmap(ck, root, kinds, rig, nrec, cols, drop, dense=None):
    w = c29.World(root, kinds, rig, nrec)
    what = "%s rig %s nrec %d cols %d drop %d: " % (kinds, rig, nrec, cols, drop)
    export_colmap.run_dataset(w.data, True)
    d = os.path.join(root, "colmap_export")
    db = sqlite3.connect(os.path.join(d, "colmap_database.db"))
    desc = complete(w, db, cols, drop)
    pairs = {}
    names = {i: n for i, n in db.execute("SELECT image_id, name FROM images")}
    for k, b in db.execute("SELECT pair_id, data FROM two_view_geometries"):
        i, j = k // (2**31 - 1), k % (2**31 - 1)
        pairs[names[i], names[j]] = {tuple(int(x) for x in p) for p in np.frombuffer(b, np.uint32).reshape(-1, 2)}
    pts = {}
    _, images, points = c29.read_colmap(d, True)
    db.close()
    if dense:
        dense(w, d, images, points)
    run("import_colmap.py", os.path.join(d, "colmap_database.db"), os.path.join(root, "images"))
    e = os.path.join(d, "opensfm_export")
    data = dataset.DataSet(e)
    ck.expect(sorted(data.images()) == sorted(w.names), "images", what + repr(data.images()))
    models = data.load_camera_models()
    for n in w.names:
        k = w.kind[n]
        old = w.cams["cam " + k]
        x = data.load_exif(n)
        ck.expect((x["width"], x["height"], x["orientation"]) == (old.width, old.height, 1) and x["projection_type"] == old.projection_type
                  and x["camera"] in models, "exif", what + repr(x))
        # focals without prior are not taken over (COLMAP says they are unknown)
        c = models[x["camera"]]
        ck.expect((c.projection_type, c.width, c.height) == (old.projection_type, old.width, old.height) and abs(c.k1 - old.k1) < 1e-9 and abs(c.k2 - old.k2) < 1e-9,
                  "model", what + "%s: %r" % (n, c.get_parameters_values()))
        ck.expect(abs(c.focal - 0.85) < 1e-12 and abs(x["focal_ratio"] - 0.85) < 1e-12, "unknown-focal", what + "%s: %r %r" % (n, c.focal, x["focal_ratio"]))
        ck.expect(data.load_image(n).shape == (old.height, old.width, 3), "image", what + n)
        fd = data.load_features(n) if n in desc else None
        if n in desc:
            want = w.feat[n][:, :2]
            ck.expect(fd is not None and fd.points.shape == (len(want), 4) and np.abs(fd.points[:, :2] - want).max() < 1e-5, "features", what + "%s: %r instead of %r" % (n, fd.points[:2], want[:2]))
            ck.expect(np.array_equal(fd.descriptors, desc[n]), "descriptors", what + n)
            img = data.load_image(n)
            for i, p in enumerate(fd.points):
                ck.ev()
                s, o, _ = affine(n, i)
                m = max(old.width, old.height)
                if cols > 2:
                    ck.expect(abs(p[2] - s / m) < 1e-6 and abs(np.sin(p[3] - o)) < 1e-4 and np.cos(p[3] - o) > 0, "scale", what + "feature %d of %s: %r instead of %r" % (i, n, p[2:], (s / m, o)))
                u, v = p[0] * m + (old.width - 1) / 2, p[1] * m + (old.height - 1) / 2
                if 0 <= round(u) < old.width and 0 <= round(v) < old.height and abs(v - 2 * old.height // 3) > 1:
                    ck.expect(np.abs(fd.colors[i] - img[round(v), round(u)]).max() <= 1, "colour", what + "feature %d of %s: %r" % (i, n, fd.colors[i]))
        else:
            ck.expect(not data.features_exist(n), "no-features", what + n)
    got = {}
    for n in w.names:
        for o, m in data.load_matches(n).items():
            got[n, o] = {tuple(int(x) for x in p) for p in m}
    ck.expect(got == pairs, "matches", what + "%r instead of %r" % (sorted(got), sorted(pairs)))
    rec = data.load_reconstruction()
    ck.expect(len(rec) == 1, "one", what + "%d reconstructions" % len(rec))
    rec = rec[0]
    old = [r for r in w.data.load_reconstruction()]
    ck.expect(sorted(rec.shots.keys()) == sorted(n for ns in w.recs for n in ns), "shots", what + repr(sorted(rec.shots.keys())))
    for r in old:
        for n in r.shots.keys():
            s = rec.shots[n]
            ck.expect(np.allclose(s.pose.get_rotation_matrix(), w.R[n], atol=1e-7) and np.allclose(s.pose.get_origin(), w.C[n], atol=1e-6), "pose",
                      what + "%s: %r instead of %r" % (n, s.pose.get_origin(), w.C[n]))
            ck.expect(same_camera(s.camera, w.cams["cam " + w.kind[n]]), "camera", what + "%s: %r" % (n, s.camera.get_parameters_values()))
    ck.expect(len(rec.points) == sum(len(r.points) for r in old), "points", what + "%d points" % len(rec.points))
    tm = data.load_tracks_manager()
    for pid, (x, col, track) in points.items():
        p = rec.points[str(pid)]
        ck.expect(np.allclose(p.coordinates, x, atol=1e-12) and tuple(p.color) == tuple(col), "point", what + "%d: %r %r" % (pid, p.coordinates, p.color))
        obs = tm.get_track_observations(str(pid)) if str(pid) in tm.get_track_ids() else {}
        ck.expect(sorted((n, o.id) for n, o in obs.items()) == sorted((images[i][3], f) for i, f in track), "track", what + "%d: %r" % (pid, sorted(obs)))
        for n, o in obs.items():
            ck.ev()
            want = w.feat[n][o.id, :2]
            ck.expect(np.abs(np.array(o.point) - want).max() < 1e-5 and tuple(o.color) == tuple(col), "observation", what + "%d in %s: %r instead of %r" % (pid, n, o.point, want))
            q = rec.shots[n].project(p.coordinates)
            ck.expect(np.abs(q - want).max() < 1e-4, "reprojection", what + "%d in %s" % (pid, n))
    ck.expect(len(tm.get_track_ids()) == len([1 for v in points.values() if v[2]]), "tracks", what + "%d tracks" % len(tm.get_track_ids()))
    u = data.undistorted_dataset()
    ur = u.load_undistorted_reconstruction()[0]
    ut = u.load_undistorted_tracks_manager()
    ck.expect(len(ur.shots) == len(rec.shots), "undistorted", what + repr(sorted(ur.shots.keys())))
    for n in ur.shots.keys():
        s = ur.shots[n]
        c = s.camera
        ck.expect(c.projection_type == "perspective" and c.k1 == 0 and c.k2 == 0, "undistorted-camera", what + n)
        o = [m for m in w.names if n.startswith(m)][0]
        ck.expect(np.allclose(s.pose.get_rotation_matrix(), w.R[o], atol=1e-7) and np.allclose(s.pose.get_origin(), w.C[o], atol=1e-6), "undistorted-pose", what + n)
        img = u.load_undistorted_image(n)
        ck.expect(img is not None and img.shape == (c.height, c.width, 3), "undistorted-image", what + n)
        for t, ob in ut.get_shot_observations(n).items():
            X = w.R[o] @ (np.asarray(rec.points[t].coordinates) - w.C[o])
            q = c.focal * X[:2] / X[2]
            ck.expect(np.abs(q - ob.point).max() < 3e-4, "undistorted-track", what + "%s in %s: %r instead of %r" % (t, n, ob.point, q))
    ck.outcome((kinds, rig, nrec, cols, drop))
    return w, data, u, ur


def pinhole(ck, root, i):
    """PINHOLE cameras and ones whose focal length is known"""
    w = c29.World(root, "p")
    export_colmap.run_dataset(w.data, True)
    d = os.path.join(root, "colmap_export")
    f = [90.0, 133.3, 250.0][i]
    db = sqlite3.connect(os.path.join(d, "colmap_database.db"))
    par = np.array([f, f, 100.0, 80.0])
    db.execute("UPDATE cameras SET model=1, params=?, prior_focal_length=1", (par.tobytes(),))
    complete(w, db, 6, 0)
    cid = db.execute("SELECT camera_id FROM cameras").fetchone()[0]
    db.close()
    with open(os.path.join(d, "cameras.bin"), "wb") as fo:
        fo.write(struct.pack("<QiiQQ4d", 1, cid, 1, 200, 160, *par))
    run("import_colmap.py", os.path.join(d, "colmap_database.db"), os.path.join(root, "images"))
    data = dataset.DataSet(os.path.join(d, "opensfm_export"))
    for c in (list(data.load_camera_models().values())[0], list(data.load_reconstruction()[0].cameras.values())[0]):
        ck.ev()
        ck.expect(c.projection_type == "perspective" and abs(c.focal - f / 200) < 1e-9 and c.k1 == c.k2 == 0 and (c.width, c.height) == (200, 160), "pinhole", repr(c.get_parameters_values()))
    x = data.load_exif("a.png")
    ck.expect(abs(x["focal_ratio"] - f / 200) < 1e-9, "pinhole-exif", repr(x))
    ck.outcome(f)


# rotations as vectors, and whether the quaternion is written with the other sign
TURNS = [((0, 0, 0), 0), ((0, 0, 0), 1), ((1e-3, 0, 0), 0), ((2e-4, -3e-4, 1e-4), 0), ((1e-6, 2e-6, 0), 1), ((0.3, -0.2, 0.1), 0), ((0.3, -0.2, 0.1), 1),
         ((0, 3.1, 0.4), 0), ((3.14159, 0, 0), 0), ((0, 0, -1.5707963), 0), ((0, -3.0, 0.9), 1), ((1e-9, 0, 0), 0)]


def turns(ck, root, i):
    """poses of all sizes of rotations"""
    w = c29.World(root, "p")
    export_colmap.run_dataset(w.data, True)
    d = os.path.join(root, "colmap_export")
    db = sqlite3.connect(os.path.join(d, "colmap_database.db"))
    complete(w, db, 6, 0)
    db.close()
    v, flip = TURNS[i]
    v = np.array(v, float)
    a = np.linalg.norm(v)
    q = np.concatenate(([np.cos(a / 2)], (np.sin(a / 2) / a * v if a else v)))
    t = np.array([0.3, -0.2, 9.0])
    f = os.path.join(d, "images.bin")
    b = bytearray(open(f, "rb").read())
    assert struct.unpack_from("<Q", b, 0)[0] == 1
    struct.pack_into("<7d", b, 12, *(-q if flip else q), *t)
    open(f, "wb").write(bytes(b))
    run("import_colmap.py", os.path.join(d, "colmap_database.db"), os.path.join(root, "images"))
    s = list(dataset.DataSet(os.path.join(d, "opensfm_export")).load_reconstruction()[0].shots.values())[0]
    ck.ev()
    ck.expect(np.abs(s.pose.get_rotation_matrix() - rod(v)).max() < 1e-7, "turn", "%r: %r" % (TURNS[i], s.pose.get_rotation_matrix().tolist()))
    ck.expect(np.abs(s.pose.translation - t).max() < 1e-7, "turn-place", "%r: %r" % (TURNS[i], s.pose.translation))
    ck.outcome(TURNS[i])


def fused(ck, root, kinds, rig, miss):
    """depth maps from COLMAP's fused point cloud: every point seen at its pixel with its depth, nothing else"""
    extra = []

    def dense(w, d, images, points):
        os.makedirs(os.path.join(d, "dense", "sparse"))
        for f in ("cameras.bin", "images.bin"):
            shutil.copy(os.path.join(d, f), os.path.join(d, "dense", "sparse", f))
        images = list(images.items())
        if miss:
            # the first image is not used for the dense reconstruction
            (_, first), images = images[0], images[1:]
            b = open(os.path.join(d, "images.bin"), "rb").read()
            size = 4 + 56 + 4 + len(first[3].encode()) + 1 + 8 + 24 * len(first[4])
            assert b[8 + 64:].startswith(first[3].encode() + b"\0")
            with open(os.path.join(d, "dense", "sparse", "images.bin"), "wb") as f:
                f.write(struct.pack("<Q", len(images)) + b[8 + size:])
        images = dict(images)
        edge = []
        for v in images.values():                     # at the borders of the image, and outside
            n = v[3]
            k = w.kind[n]
            par = c29.KINDS[k][1]
            wd, h = c29.SIZE[k]
            m = max(wd, h)
            for a, b in ((0.51, 0.6), (0.51, 0.2), (0.003, 0.3), (0.995, 0.7), (0.4, 0.004), (0.3, 0.994), (1.2, 0.5), (0.5, -0.2), (-0.1, -0.1), (0.4, 1.3)):
                q = np.array([a * wd - wd / 2, b * h - h / 2]) / m / par[0]
                edge.append(w.R[n].T @ (np.array([q[0], q[1], 1.0]) * (6 + a)) + w.C[n])
        X = edge + [np.array(p[0]) for p in points.values()] + [np.array([0.1 * i - 0.5, 0.3, 0.07 * i]) for i in range(9)]
        extra.extend(X)
        with open(os.path.join(d, "dense", "fused.ply"), "wb") as f:
            f.write(b"ply\nformat binary_little_endian 1.0\nelement vertex %d\n" % len(X))
            for p in "xyz":
                f.write(b"property float %s\n" % p.encode())
            for p in ("nx", "ny", "nz"):
                f.write(b"property float %s\n" % p.encode())
            for p in ("red", "green", "blue"):
                f.write(b"property uchar %s\n" % p.encode())
            f.write(b"end_header\n")
            for x in X:
                f.write(struct.pack("<6f3B", *x, 0, 0, 1, 9, 8, 7))
        with open(os.path.join(d, "dense", "fused.ply.vis"), "wb") as f:
            f.write(struct.pack("<Q", len(X)))
            for k in range(len(X)):
                v = [i for i in range(len(images)) if k % 3 != i]
                f.write(struct.pack("<I%dI" % len(v), len(v), *v))
        order.extend(v[3] for v in images.values())
    order = []
    w, data, u, ur = colmap(ck, root, kinds, rig, 1, 6, 0, dense)
    for i, n in enumerate(order):
        z = np.load(u.depthmap_file(n, "clean.npz"))["depth"]
        s = ur.shots[n]
        m = max(s.camera.width, s.camera.height)
        k = 64 / m if m > 64 else 1
        wd, h = (64, int(64 * s.camera.height / s.camera.width)) if s.camera.width > s.camera.height else (int(64 * s.camera.width / s.camera.height), 64)
        ck.expect(z.shape == (h, wd), "depth-shape", "%s: %r" % (n, z.shape))
        used = set()
        for j, x in enumerate(extra):
            X = w.R[n] @ (x - w.C[n])
            q = s.camera.focal * X[:2] / X[2] * max(wd, h) + (np.array([wd, h]) - 1) / 2
            if j % 3 == i or X[2] <= 0:
                continue
            ck.ev()
            near = [(int(b), int(a)) for a in {np.floor(q[0]), np.ceil(q[0])} for b in {np.floor(q[1]), np.ceil(q[1])} if 0 <= a < wd and 0 <= b < h]
            for p in near:
                used.add(p)
            if 0.01 < q[0] < wd - 1.01 and 0.01 < q[1] < h - 1.01:
                ck.expect(any(z[p] for p in near), "depth-point", "%s: point %r at %r has no depth" % (n, x, q))
        for p in zip(*np.nonzero(z)):
            # the depth of one of the points there
            ok = False
            for j, x in enumerate(extra):
                X = w.R[n] @ (x - w.C[n])
                q = s.camera.focal * X[:2] / X[2] * max(wd, h) + (np.array([wd, h]) - 1) / 2
                if j % 3 != i and np.abs(q - (p[1], p[0])).max() < 1.01 and abs(z[p] - X[2]) < 1e-3 * X[2]:
                    ok = True
            ck.expect(ok, "depth-value", "%s: depth %g at %r is of no point there" % (n, z[p], p))


def bundler(ck, root, kinds, rig, nrec, r, lst):
    """exported to Bundler and back"""
    w = c29.World(root, kinds, rig, nrec)
    what = "bundler %s rig %s nrec %d/%d list %d: " % (kinds, rig, r, nrec, lst)
    export_bundler.run_dataset(w.data, None, None, False)
    b = os.path.join(root, "bundler")
    new = os.path.join(root, "imported")
    os.makedirs(new)
    names = open(os.path.join(b, "list_r%03d.out" % r), encoding="utf-8").read().split("\n")
    path = os.path.join(root, "images", "list.txt") if lst else os.path.join(new, "list.txt")
    with open(path, "w", encoding="utf-8") as f:
        f.write("".join(("%s 0 %g\n" % (n, 100.0) if lst else os.path.join("..", "images", n) + "\n") for n in names))
    run("import_bundler", new, "--list", path, "--bundleout", os.path.join(b, "bundle_r%03d.out" % r))
    data = dataset.DataSet(new)
    ck.expect(sorted(data.images()) == sorted(w.names), "bundler-images", what + repr(data.images()))
    rec = data.load_reconstruction()[0]
    old = w.data.load_reconstruction()[r]
    tm = data.load_tracks_manager()
    ck.expect(sorted(rec.shots.keys()) == sorted(old.shots.keys()), "bundler-shots", what + repr(sorted(rec.shots.keys())))
    for n in rec.shots.keys():
        s = rec.shots[n]
        ck.expect(np.allclose(s.pose.get_rotation_matrix(), w.R[n], atol=1e-7) and np.allclose(s.pose.get_origin(), w.C[n], atol=1e-6), "bundler-pose", what + n)
        ck.expect(same_camera(s.camera, w.cams["cam p"]), "bundler-camera", what + repr(s.camera.get_parameters_values()))
    ck.expect(len(rec.points) == len(old.points), "bundler-points", what + "%d points" % len(rec.points))
    by = {tuple(np.float32(p.coordinates)): t for t, p in old.points.items()}
    for pid in rec.points.keys():
        p = rec.points[pid]
        t = by.get(tuple(np.float32(p.coordinates)))
        if t is None:
            ck.fail("bundler-point", what + repr(p.coordinates))
            continue
        ck.expect(tuple(p.color) == tuple(old.points[t].color), "bundler-color", what + repr(p.color))
        a = tm.get_track_observations(pid)
        o = {n: x for n, x in w.tm.get_track_observations(t).items() if n in old.shots}
        ck.ev()
        ck.expect({n: x.id for n, x in a.items()} == {n: x.id for n, x in o.items()} and all(np.abs(np.array(a[n].point) - o[n].point).max() < 1e-5 for n in a), "bundler-track", what + "%s: %r" % (t, sorted(a)))
    ck.outcome(what)
