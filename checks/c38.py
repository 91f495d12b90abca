"""C38: meshes: every shot gets a triangulation of its view made of the points it sees."""
import itertools
import json
import math
import os
import shutil

import numpy as np
from opensfm import dataset, mesh, pygeometry, pymap, types
from opensfm.actions import mesh as action

import c13
from bascene import REF, camera, look, pose
from scene import rod

LEVEL = "exploration"
RULE = ("all subsets of nine points (inside, outside and on the border of the image, repeated, unseen, unreconstructed) x all camera models x "
        "poses and image shapes: vertices are the corners and the points seen, faces cover the view exactly once and are Delaunay; the command on "
        "datasets of several reconstructions; non-trivial: distinct meshes")
ASSUMPTIONS = ["observed points are in front of perspective cameras and away from the optical centers"]
FLAT = ["perspective", "brown", "radial", "simple_radial"]
ROUND = ["fisheye", "fisheye_opencv", "fisheye62", "fisheye624", "dual"]
PANO = ["spherical"]
# (direction x, y at z = 1, depth)
BASE = [(0.05, 0.02, 4.0), (-0.31, 0.22, 6.0), (0.33, -0.2, 3.0), (0.12, 0.3, 8.0), (-0.2, -0.28, 5.0), (0.9, 0.1, 4.0), (-0.1, 1.1, 7.0), (0.051, 0.021, 9.0), (0.4, 0.33, 2.0)]
AROUND = [(0.1, 0.1, 1), (-0.5, 0.2, -1), (1, -0.2, 0.1), (0.2, 0.9, 0.3), (-0.9, -0.5, 0.4), (0.1, -1, -0.2), (0.3, 0.4, -0.9), (0.105, 0.1, 1), (0.6, 0.7, 0.8)]
POSES = [((0, 0, 0), (0, 0, 0)), ((0.4, -0.7, 1.1), (3, -2, 5)), ((0, 3.0, 0.1), (-30, 2, 1))]
DIMS = [(1000, 800), (600, 900), (500, 500)]


def cases(ck):
    out = []
    masks = range(512)
    for t in FLAT + ROUND + PANO:
        for i, ps in enumerate(POSES):
            for k in range(0, 512, 32):
                if ck.quick and ((k // 32 + i) % 3 or t in ("radial", "fisheye62") and k % 64):
                    continue
                out.append(["shot", t, i, (i + k // 32) % 3, k, k + 32])
    out += [["missing", t] for t in FLAT + ROUND + PANO]
    out += [["command", n, i] for n in (1, 2) for i in range(3 if ck.quick else 8)]
    return out


def check(ck, c):
    globals()[c[0]](ck, *c[1:])


def world(t, pi, dim, subset):
    rec = types.Reconstruction()
    rec.reference = REF
    if t in PANO:
        cam = pygeometry.Camera.create_spherical()
        cam.width, cam.height = 1000, 500
        cam.id = "c"
    else:
        cam = camera(t, "c")
        cam.width, cam.height = DIMS[dim]
    rec.add_camera(cam)
    R, C = rod(POSES[pi][0]), np.array(POSES[pi][1], float)
    shot = rec.create_shot("s", "c", pose(R, C))
    rec.create_shot("other", "c", pose(R, C + 1))
    tm = pymap.TracksManager()
    pts = {}
    for i in range(9):
        if not subset >> i & 1:
            continue
        if t in FLAT:
            x, y, z = BASE[i]
            X = np.array([x * z, y * z, z])
        else:
            X = np.array(AROUND[i], float) * (3 + i)
            if t in ROUND and X[2] < 0 and i != 1:
                X[2] = -X[2]
        X = R.T @ X + C
        n = "t%d" % i
        tm.add_observation("s", n, pymap.Observation(0.0, 0.0, 0.004, 1, 2, 3, i))
        if i % 2:
            tm.add_observation("other", n, pymap.Observation(0.0, 0.0, 0.004, 1, 2, 3, i))
        rec.create_point(n, X)
        pts[n] = X
    # observed but not reconstructed, reconstructed but not observed
    tm.add_observation("s", "ghost", pymap.Observation(0.0, 0.0, 0.004, 1, 2, 3, 77))
    tm.add_observation("other", "far", pymap.Observation(0.0, 0.0, 0.004, 1, 2, 3, 78))
    rec.create_point("far", R.T @ np.array([0.1, 0.15, 5.0]) + C)
    return rec, tm, shot, cam, R, C, pts


def shot(ck, t, pi, dim, a, b):
    for subset in range(a, b):
        what = "%s pose %d size %d points %r" % (t, pi, dim, [i for i in range(9) if subset >> i & 1])
        rec, tm, s, cam, R, C, pts = world(t, pi, dim, subset)
        got = mesh.triangle_mesh("s", rec, tm)
        ck.ev()
        judge(ck, what, t, cam, R, C, pts, s, *got)
        ck.outcome((t, pi, dim, subset))


def judge(ck, what, t, cam, R, C, pts, s, V, F):
    V = np.array([np.array(v, float) for v in V]).reshape(-1, 3)
    F = [[int(i) for i in f] for f in F]
    ck.expect(np.isfinite(V).all(), "finite", what)
    ck.expect(all(len(f) == 3 and len(set(f)) == 3 and 0 <= min(f) and max(f) < len(V) for f in F), "faces", "%s: %r" % (what, F))
    ck.expect(len({tuple(sorted(f)) for f in F}) == len(F), "repeated-face", what)
    n0 = 4 if t in FLAT else 21 if t in ROUND else 8
    if t in FLAT:
        m = max(cam.width, cam.height)
        dx, dy = cam.width / 2 / m, cam.height / 2 / m
        pix = {n: np.asarray(cam.project(R @ (X - C))) for n, X in pts.items()}
        want = [X for n, X in pts.items() if abs(pix[n][0]) <= dx and abs(pix[n][1]) <= dy]
    else:
        want = list(pts.values())
    have = sorted(map(tuple, np.round(V[n0:], 9)))
    ck.expect(have == sorted(map(tuple, np.round(want, 9))) if len(want) else len(V) == n0, "vertices", "%s: %d points instead of %d" % (what, len(V) - n0, len(want)))
    cc = (V - C) @ R.T
    if t in FLAT:
        P = np.array([[0.0, 0.0]] * 4 + [list(cam.project(c)) for c in cc[4:]])
        K = cam.get_K()
        for i in range(4):
            q = K @ cc[i]
            ck.expect(cc[i][2] > 0, "corner", "%s: corner %d at depth %g" % (what, i, cc[i][2]))
            P[i] = q[:2] / q[2]
        ck.expect({(round(float(p[0]), 6), round(float(p[1]), 6)) for p in P[:4]} == {(round(a * dx, 6), round(b * dy, 6)) for a in (1, -1) for b in (1, -1)}, "corners", "%s: %r" % (what, P[:4].tolist()))
        for i in range(4):
            z = [cc[j][2] for f in F if i in f for j in f if j >= 4]
            w = np.mean(z) if z else 50.0
            ck.expect(abs(cc[i][2] - w) < 1e-6 * w, "corner-depth", "%s: corner %d at depth %g instead of %g" % (what, i, cc[i][2], w))
        ar = 0
        for f in F:
            p, q, r = P[f]
            k = abs((q[0] - p[0]) * (r[1] - p[1]) - (q[1] - p[1]) * (r[0] - p[0])) / 2
            ar += k
            if k < 1e-9:
                continue
            # nobody within the circle of a triangle
            M = np.array([q - p, r - p])
            o = np.linalg.solve(2 * M, [(q - p) @ (q + p), (r - p) @ (r + p)])
            d = np.linalg.norm(P - o, axis=1)
            ck.expect(d.min() > np.linalg.norm(p - o) - 1e-7, "delaunay", "%s: face %r" % (what, f))
        ck.expect(abs(ar - 4 * dx * dy) < 1e-9, "cover", "%s: faces cover %g of %g" % (what, ar, 4 * dx * dy))
        used = {i for f in F for i in f}
        ck.expect(used == set(range(len(P))) or len(np.unique(np.round(P, 7), axis=0)) < len(P), "unused", "%s: %r" % (what, set(range(len(P))) - used))
        return
    if t in ROUND:
        ck.expect(np.abs(np.linalg.norm(cc[:21], axis=1) - 30).max() < 1e-9 and np.abs(cc[:20, 2]).max() < 1e-9 and np.abs(cc[20] - (0, 0, 30)).max() < 1e-9, "rim", "%s" % what)
        ang = np.sort(np.arctan2(cc[:20, 1], cc[:20, 0]))
        ck.expect(np.abs(np.diff(ang) - math.pi / 10).max() < 1e-9, "rim-places", what)
        ck.expect(all(max(f) >= 20 for f in F), "rim-face", "%s: a face of the rim only" % what)
    else:
        ck.expect({tuple(np.sign(np.round(c, 9)).astype(int)) for c in cc[:8]} == set(itertools.product((-1, 1), repeat=3)) and np.abs(np.linalg.norm(cc[:8], axis=1) - 0.3).max() < 1e-9, "cube", what)
    B = cc / np.linalg.norm(cc, axis=1)[:, None]
    B[[20] if t in ROUND else range(8)] *= 0.3
    for f in F:
        p, q, r = B[f]
        n = np.cross(q - p, r - p)
        L = np.linalg.norm(n)
        if L < 1e-10:
            continue
        d = (B - p) @ (n / L)
        ck.expect(d.max() < 1e-8 or d.min() > -1e-8, "hull", "%s: face %r cuts the hull" % (what, f))
    # each direction of the view meets one face
    inside = 0
    for u in DIRS:
        if t in ROUND and u[2] < 0.15:
            continue
        hits = 0
        vague = False
        o = np.array([0, 0, 1e-3]) if t in ROUND else np.zeros(3)
        for f in F:
            p, q, r = B[f]
            M = np.array([p - o, q - o, r - o]).T
            if abs(np.linalg.det(M)) < 1e-12:
                continue
            k = np.linalg.solve(M, u)
            if (k > 1e-7).all():
                hits += 1
            elif (k > -1e-7).all():
                vague = True
        inside += 1
        ck.expect(hits == 1 or vague, "view", "%s: direction %r meets %d faces" % (what, u.tolist(), hits))


DIRS = [np.array([math.sin(2.4 * i) * math.sqrt(1 - z * z), math.cos(2.4 * i) * math.sqrt(1 - z * z), z]) for i in range(12) for z in [1 - (2 * i + 1) / 12.3]]


def missing(ck, t):
    rec, tm, s, cam, R, C, pts = world(t, 0, 0, 31)
    rec.create_shot("blind", "c", pose(R, C))
    only = pymap.TracksManager()
    ck.ev()
    for who, m in (("nobody", tm), ("blind", tm), ("s", only)):
        got = mesh.triangle_mesh(who, rec, m)
        ck.expect(list(got[0]) == [] and list(got[1]) == [], "no-mesh", "%s %s: %r" % (t, who, got))
    ck.outcome(t)


def command(ck, n, i):
    root = os.path.join(ck.scratch, "w")
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root + "/images")
    kinds = FLAT + ROUND + PANO[:1]
    tm = pymap.TracksManager()
    recs = []
    info = {}
    for r in range(n):
        rec = types.Reconstruction()
        rec.reference = REF
        for k in range(2):
            t = kinds[(i + 3 * r + 5 * k) % len(kinds)]
            w, wt, s, cam, R, C, pts = world(t, (i + k) % 3, i % 3, 0b101011011 if k == 0 else 0b011110111)
            cam.id = "c%d%d" % (r, k)
            rec.add_camera(cam)
            name = "im%d%d.png" % (r, k)
            open(os.path.join(root, "images", name), "w").close()
            rec.create_shot(name, cam.id, pose(R, C))
            mine = {}
            for q, X in pts.items():
                q2 = "%d%d%s" % (r, k, q)
                tm.add_observation(name, q2, wt.get_shot_observations("s")[q])
                rec.create_point(q2, X)
                mine[q2] = X
            info[name] = (r, t, cam, R, C, mine)
        rec.create_shot("lone%d.png" % r, cam.id, pose(R, C))
        recs.append(rec)
    with open(root + "/config.yaml", "w") as f:
        f.write("processes: 1\n")
    data = dataset.DataSet(root)
    data.save_tracks_manager(tm)
    data.save_reconstruction(recs)
    plain = open(os.path.join(root, "reconstruction.json")).read()
    action.run_dataset(data)
    ck.expect(open(os.path.join(root, "reconstruction.json")).read() == plain, "untouched", "the reconstruction itself changed")
    with open(os.path.join(root, "reconstruction.meshed.json")) as f:
        got = json.load(f)
    ck.expect(len(got) == n, "reconstructions", "%d instead of %d" % (len(got), n))
    for name, (r, t, cam, R, C, mine) in info.items():
        ck.ev()
        s = got[r]["shots"][name]
        judge(ck, "command %d %d %s" % (n, i, name), t, cam, R, C, mine, None, s["vertices"], s["faces"])
        ck.expect(len(s["faces"]) > 0, "no-faces", name)
        b = data.load_reconstruction("reconstruction.meshed.json")[r].shots[name]
        ck.expect(np.allclose(b.mesh.vertices, s["vertices"]) and np.array_equal(b.mesh.faces, s["faces"]), "mesh-back", name)
    for r in range(n):
        s = got[r]["shots"]["lone%d.png" % r]
        ck.expect(len(s["vertices"]) == 0 and len(s["faces"]) == 0, "lone", repr(s))
        want = json.loads(plain)[r]
        for k in want:
            if k not in ("shots", "rig_instances"):      # poses are rounded when they are read and written
                ck.expect(got[r][k] == want[k], "rest", "%s" % k)
    ck.outcome((n, i))
    shutil.rmtree(root, ignore_errors=True)
