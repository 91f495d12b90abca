"""C21: alignment moves the whole reconstruction by one similarity, the one that GPS, control points and orientation prior ask for."""
import itertools
import math

import numpy as np
from opensfm import align, config as oconfig, geo, pygeometry, pymap, reconstruction_helpers as helpers, types

from scene import rod

LEVEL = "exploration"
RULE = ("all layouts of cameras (generic, planar, line, pair, single; single and rig) x similarities x sources of positions (GPS, control points, both, "
        "subsets, switched off) x methods x orientation priors x EXIF orientations x bias compensation; all combinations of metadata tags; "
        "non-trivial: distinct (layout, similarity, source, method) combinations")
ASSUMPTIONS = ["positions fit a similarity exactly", "control points without altitude are used on reconstructions that differ from the world by a rotation about the vertical, scale and shift",
               "cameras whose positions are all in one place have a GPS offset below 1 km", "mirrored EXIF orientations (2, 4, 5, 7) have no rotation and are not used with the vertical prior"]
REF = geo.TopocentricConverter(47.0, 8.5, 300.0)

LAYOUTS = {
    "generic": [(0, 0, 10), (12, 1, 11), (3, 9, 14), (-7, 4, 9), (5, -8, 12)],
    "triangle": [(0, 0, 10), (12, 0, 10), (3, 9, 10)],
    "square": [(0, 0, 10), (10, 0, 10), (10, 10, 10), (0, 10, 10)],
    "line": [(0, 0, 10), (6, 3, 10), (12, 6, 10), (24, 12, 10)],
    "eastline": [(0, 0, 10), (5, 0, 10), (10, 0, 10), (15, 0, 10)],
    "pair": [(0, 0, 10), (12, -5, 10)],
    "single": [(4, -3, 10)],
}
SIMS = [(1.0, (0, 0, 0), (0, 0, 0)), (2.5, (0.3, -0.2, 0.1), (10, -20, 5)), (0.2, (0, 0, 2.0), (-3, 4, 1)), (7.0, (2.9, 0.4, -0.3), (100, 50, -20)),
        (1.0, (math.pi, 0, 0), (0, 0, 30)), (30.0, (-1.2, 1.3, 0.9), (-500, 300, 40)), (1.0, (0.7, 1.1, -2.0), (1, 2, 3)), (4.0, (0, -math.pi / 2, 0), (2, 2, 2))]
POINTS = [(1, 2, 0), (5, 5, 1), (-4, 3, -1), (8, -6, 0.5), (0, 7, 2), (30, 30, 60)]


def cam(cid):
    c = pygeometry.Camera.create_perspective(0.9, 0.0, 0.0)
    c.id = cid
    c.width, c.height = 800, 600
    return c


def upright(heading, pitch, roll):
    """rows: the right, down and forward directions of the camera in the world"""
    f = np.array([math.sin(heading) * math.cos(pitch), math.cos(heading) * math.cos(pitch), -math.sin(pitch)])
    r = np.array([math.cos(heading), -math.sin(heading), 0.0])
    d = np.cross(f, r)
    return np.array([math.cos(roll) * r + math.sin(roll) * d, -math.sin(roll) * r + math.cos(roll) * d, f])


def raw(R, tag):
    """the camera whose image, turned as EXIF orientation `tag` says, is upright with axes R; for mirrored tags the third axis is left
    as the product of the two others"""
    x, y = R[0], R[1]
    a, b = {1: (x, y), 2: (-x, y), 3: (-x, -y), 4: (x, -y), 5: (y, x), 6: (y, -x), 7: (-y, -x), 8: (-y, x)}[tag]
    return np.array([a, b, np.cross(a, b)])


class World:
    """a true scene; rec() is the same scene in another frame"""

    def __init__(self, centers, rots, rigs=None, cams=1, tag=1):
        self.c = [np.array(c, float) for c in centers]
        self.R = [np.array(r) for r in rots]
        self.rigs, self.ncam, self.tag = rigs, cams, tag
        self.ids = ["s%d" % i for i in range(len(self.c))]
        self.untagged = ()

    def rec(self, sim, gps=(), gps_of=None):
        s, aa, b = sim
        A, b = rod(aa), np.array(b, float)
        rec = types.Reconstruction()
        rec.reference = REF
        for i in range(self.ncam):
            rec.add_camera(cam("c%d" % i))
        if self.rigs:
            for j, (r, t) in enumerate(self.rigs):
                rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.array(r, float), np.array(t, float) / s), "r%d" % j))
        self.rig_t = [np.array(t, float) for _, t in (self.rigs or [])]
        shots = []
        for i, sid in enumerate(self.ids):
            Rr = self.R[i] @ A
            p = pygeometry.Pose()
            p.set_rotation_matrix(Rr)
            p.set_origin(A.T @ (self.c[i] - b) / s)
            if self.rigs:
                inst = pymap.RigInstance("i" + sid)
                rec.add_rig_instance(inst)
                for j in range(len(self.rigs)):
                    shots.append((rec.create_shot("%s_%d" % (sid, j), "c%d" % (j % self.ncam), rig_camera_id="r%d" % j, rig_instance_id="i" + sid), i))
                rec.rig_instances["i" + sid].pose = p
            else:
                shots.append((rec.create_shot(sid, "c%d" % (i % self.ncam), p), i))
        for sh, i in shots:
            if i not in self.untagged:
                sh.metadata.orientation.value = self.tag
            if i in gps:
                sh.metadata.gps_position.value = self.c[i] if gps_of is None else gps_of(sh, self.c[i])
        for i, x in enumerate(POINTS):
            rec.create_point("p%d" % i, A.T @ (np.array(x, float) - b) / s)
        return rec

    def gcps(self, rec, positions, sees, altitude=True):
        """control points with their observations by the shots in `sees`, taken in the world (from the poses before alignment)"""
        out = []
        for k, x in enumerate(positions):
            g = pymap.GroundControlPoint()
            g.id = "g%d" % k
            lat, lon, alt = REF.to_lla(*x)
            g.lla = {"latitude": lat, "longitude": lon, "altitude": alt if altitude else 0.0}
            g.has_altitude = altitude
            for i in sees(k):
                q = self.R[i] @ (np.array(x, float) - self.c[i])
                o = pymap.GroundControlPointObservation()
                o.shot_id = self.ids[i]
                o.projection = 0.9 * q[:2] / q[2]
                if q[2] > 0:
                    g.add_observation(o)
            out.append(g)
        return out

    def compare(self, ck, rec, key, what, tol=1e-6):
        ck.ev()
        size = 1 + max(np.linalg.norm(c) for c in self.c)
        for i, sid in enumerate(self.ids):
            p = rec.rig_instances["i" + sid].pose if self.rigs else rec.shots[sid].pose
            ck.expect(np.allclose(p.get_origin(), self.c[i], atol=tol * size, rtol=0) and np.allclose(p.get_rotation_matrix(), self.R[i], atol=tol * 10), key,
                      "%s: camera %s is at %r instead of %r, with rotation\n%r instead of\n%r" % (what, sid, p.get_origin(), self.c[i], p.get_rotation_matrix(), self.R[i]))
        for i, x in enumerate(POINTS):
            ck.expect(np.allclose(rec.points["p%d" % i].coordinates, x, atol=tol * size * 10, rtol=0), key + "-points",
                      "%s: point %d is at %r instead of %r" % (what, i, rec.points["p%d" % i].coordinates, x))
        for j, t in enumerate(self.rig_t):
            ck.expect(np.allclose(rec.rig_cameras["r%d" % j].pose.translation, t, atol=1e-6), key + "-rig", "%s: rig camera %d has translation %r instead of %r" % (
                what, j, rec.rig_cameras["r%d" % j].pose.translation, t))


def look(n, kind, tag=1, spread=True):
    """rotations of n cameras for an orientation prior"""
    out = []
    for i in range(n):
        h = 0.4 + (1.1 * i if spread else 0)
        if kind == "horizontal":
            R = upright(h, 0.0, 0.0)
        elif kind == "no_roll":
            R = upright(h, 0.3 - 0.25 * i, 0.0)
        elif kind == "vertical":
            R = upright(h, math.pi / 2, 0.0)
        else:  # anything
            R = upright(h, 0.7 + 0.2 * i, 0.5 - 0.3 * i)
        out.append(raw(R, tag))
    return out


def cfg(**kw):
    c = oconfig.default_config()
    c.update(kw)
    return c


def cases(ck):
    out = [["moves", i] for i in range(len(SIMS))]
    out += [["exact", lay, i] for lay in ("generic", "triangle", "square") for i in range(len(SIMS))]
    out += [["prior", kind, i] for kind in ("no_roll", "horizontal", "vertical") for i in range(len(SIMS))]
    out += [["few", i] for i in range(len(SIMS))]
    out += [["gcp", i] for i in range(len(SIMS))]
    out += [["rigs", i] for i in range(len(SIMS))]
    out += [["bias", i] for i in range(len(SIMS))]
    out += [["meta", i] for i in range(8)] + [["frommeta", i] for i in range(4)] + [["angles", 0], ["order", 0]]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


def snapshot(rec):
    sh = {i: (s.pose.get_rotation_matrix(), s.pose.get_origin(), {p: (s.project(x.coordinates), s.pose.transform(x.coordinates)) for p, x in rec.points.items()})
          for i, s in rec.shots.items()}
    return sh, {i: p.coordinates.copy() for i, p in rec.points.items()}


def moved(ck, before, rec, res, key, what):
    """rec is `before` moved by res = (s, A, b), as a whole"""
    s, A, b = res
    ck.ev()
    ck.expect(np.allclose(A @ A.T, np.eye(3), atol=1e-8) and np.linalg.det(A) > 0 and s > 0, key + "-rotation", "%s: scale %r rotation\n%r" % (what, s, A))
    after = snapshot(rec)
    size = max([1.0, np.abs(b).max()] + [np.abs(p).max() for p in after[1].values()])
    ck.expect(set(after[0]) == set(before[0]) and set(after[1]) == set(before[1]), key + "-content", what)
    for i, p in before[1].items():
        ck.expect(np.allclose(after[1][i], s * A @ p + b, atol=1e-9 * size), key + "-points", "%s: point %s went to %r" % (what, i, after[1][i]))
    for i, (R, c, v) in before[0].items():
        R2, c2, v2 = after[0][i]
        ck.expect(np.allclose(R2, R @ A.T, atol=1e-9) and np.allclose(c2, s * A @ c + b, atol=1e-8 * size), key + "-shots", "%s: shot %s went to %r\n%r" % (what, i, c2, R2))
        for p in v:
            ck.expect(np.allclose(v2[p][1], s * v[p][1], atol=1e-7 * size) and (abs(v[p][1][2]) < 0.1 or np.allclose(v2[p][0], v[p][0], rtol=1e-6, atol=1e-6)), key + "-view",
                      "%s: point %s seen by %s at %r was at %r" % (what, p, i, v2[p], v[p]))


def do_moves(ck, i):
    """apply_similarity with every similarity on every kind of reconstruction"""
    s, aa, b = SIMS[i]
    for lay, j, rigs in itertools.product(LAYOUTS, range(len(SIMS)), (None, [((0, 0, 0), (0, 0, 0)), ((0.1, 0.5, -0.2), (0.3, -0.1, 0.05))])):
        w = World(LAYOUTS[lay], look(len(LAYOUTS[lay]), "any"), rigs)
        rec = w.rec(SIMS[j])
        before = snapshot(rec)
        align.apply_similarity(rec, s, rod(aa), np.array(b, float))
        moved(ck, before, rec, (s, rod(aa), np.array(b, float)), "apply", "%s from %r by %r rig %r" % (lay, SIMS[j], SIMS[i], bool(rigs)))
        ck.outcome((lay, i, j, bool(rigs)))


GCP_AT = [(1, 1, 0), (6, 2, 1.5), (-3, 5, 2), (4, 7, -1)]


def do_exact(ck, lay, i):
    """positions not on a line determine the similarity, whatever the source and the orientation of the cameras"""
    centers = LAYOUTS[lay]
    n = len(centers)
    for sources, method, prior in itertools.product(("gps", "gps3", "gcp", "both"), ("auto", "naive"), ("horizontal", "vertical")):
        w = World(centers, look(n, "vertical", spread=True) if "g" in sources and sources in ("gcp", "both") else look(n, "any"))
        gps = range(n) if sources in ("gps", "both") else range(3) if sources == "gps3" else ()
        rec = w.rec(SIMS[i], gps)
        g = w.gcps(rec, GCP_AT, lambda k: range(n)) if sources in ("gcp", "both") else []
        before = snapshot(rec)
        what = "%s with %s, method %s, from %r" % (lay, sources, method, SIMS[i])
        res = align.align_reconstruction(rec, g, cfg(align_method=method, align_orientation_prior=prior))
        ck.expect(res is not None, "exact-none", what)
        if res is not None:
            moved(ck, before, rec, res, "exact-move", what)
            w.compare(ck, rec, "exact", what)
        ck.outcome((lay, sources, method, prior, i))
    # what is switched off is not used: the wrong half of the data must not matter
    for off in ("gps", "gcp", "arg"):
        w = World(centers, look(n, "vertical"))
        rec = w.rec(SIMS[i], range(n), (lambda sh, c: c * 3 + [50, 1, 7]) if off != "gcp" else None)
        g = w.gcps(rec, GCP_AT, lambda k: range(n))
        if off == "gcp":
            for p in g:
                p.lla = {"latitude": 47.1 + 0.001 * float(p.lla["latitude"]), "longitude": 8.6, "altitude": 5.0}
        conf = cfg(**({"bundle_use_gps": False} if off == "gps" else {"bundle_use_gcp": False} if off == "gcp" else {}))
        res = align.align_reconstruction(rec, g, conf, use_gps=off != "arg")
        ck.expect(res is not None, "off-none", "%s %s" % (lay, off))
        w.compare(ck, rec, "off", "%s without %s from %r" % (lay, off, SIMS[i]))
        ck.outcome((lay, "off", off, i))


def do_prior(ck, kind, i):
    """cameras on a line, a pair or a level plane: the orientation prior gives the vertical, the positions the rest"""
    s, aa, b = SIMS[i]
    tags = (1, 3, 6, 8) if kind == "vertical" else range(1, 9)
    for lay, tag, method in itertools.product(("line", "eastline", "pair", "square", "triangle"), tags, ("auto", "orientation_prior")):
        if lay in ("square", "triangle") and method == "auto":
            continue
        n = len(LAYOUTS[lay])
        w = World(LAYOUTS[lay], look(n, kind, tag), tag=tag)
        w.untagged = ((), (0,), (n - 1,))[(tag + i) % 3] if n > 2 else ()  # whose file says no orientation
        rec = w.rec(SIMS[i], range(n))
        before = snapshot(rec)
        what = "%s, %s prior, orientation %d (but for %r), method %s, from %r" % (lay, kind, tag, w.untagged, method, SIMS[i])
        res = align.align_reconstruction(rec, [], cfg(align_method=method, align_orientation_prior=kind))
        ck.expect(res is not None, "prior-none", what)
        if res is not None:
            moved(ck, before, rec, res, "prior-move", what)
            w.compare(ck, rec, "prior", what, 1e-5)
        ck.outcome((lay, kind, tag, method, i))


def do_few(ck, i):
    """single positions, equal positions and no positions"""
    sim = SIMS[i]
    for kind, tag in itertools.product(("horizontal", "vertical", "no_roll"), (1, 3, 6, 8)):
        # one camera: it is put where its GPS says, upright
        for lay, ngps in (("single", 1), ("single", 0), ("pair", 0), ("line", 0), ("square", 0), ("pair", 1), ("line", 1)):
            n = len(LAYOUTS[lay])
            w = World(LAYOUTS[lay], look(n, kind, tag), tag=tag)
            rec = w.rec(sim, range(ngps))
            before = snapshot(rec)
            what = "%s with %d positions, %s prior, orientation %d, from %r" % (lay, ngps, kind, tag, sim)
            res = align.align_reconstruction(rec, [], cfg(align_orientation_prior=kind))
            ck.expect(res is not None, "few-none", what)
            if res is None:
                continue
            moved(ck, before, rec, res, "few-move", what)
            ck.expect(abs(res[0] - 1) < 1e-9, "few-scale", "%s: scaled by %r" % (what, res[0]))
            if ngps:
                c = rec.shots["s0"].pose.get_origin()
                ck.expect(np.allclose(c, w.c[0], atol=1e-6), "few-position", "%s: camera at %r instead of %r" % (what, c, w.c[0]))
            for j, sid in enumerate(w.ids):
                up_true = w.R[j] @ [0, 0, 1]
                up = rec.shots[sid].pose.get_rotation_matrix() @ [0, 0, 1]
                if kind == "no_roll" and n == 1:
                    right, up_axis = {1: (0, [0, -1, 0]), 3: (0, [0, 1, 0]), 6: (1, [-1, 0, 0]), 8: (1, [1, 0, 0])}[tag]
                    ok = abs(up[right]) < 1e-6 and up @ up_axis > -1e-9
                else:
                    ok = np.allclose(up, up_true, atol=1e-5)
                ck.expect(ok, "few-up", "%s: the vertical of camera %s is %r instead of %r" % (what, sid, up, up_true))
            # asked for nothing but positions, there is nothing to do without them
            rec = w.rec(sim, range(ngps))
            before = snapshot(rec)
            res = align.align_reconstruction(rec, [], cfg(align_method="naive"))
            ck.ev()
            if ngps == 0:
                ck.expect(res is None, "few-naive-none", "%s: %r" % (what, res))
                moved(ck, before, rec, (1.0, np.eye(3), np.zeros(3)), "few-naive-still", what)
            elif ngps == 1:
                ck.expect(res is not None and abs(res[0] - 1) < 1e-12 and np.allclose(res[1], np.eye(3)), "few-naive", what)
                if res:
                    moved(ck, before, rec, res, "few-naive-move", what)
                    ck.expect(np.allclose(rec.shots["s0"].pose.get_origin(), w.c[0], atol=1e-6), "few-naive-position", what)
            ck.outcome((lay, ngps, kind, tag, i))
        # all GPS the same: shifted only, no scale
        for lay, method in itertools.product(("pair", "line", "square"), ("auto", "naive", "orientation_prior")):
            n = len(LAYOUTS[lay])
            w = World(LAYOUTS[lay], look(n, kind, tag), tag=tag)
            at = np.array([20.0, 30.0, 5.0])
            rec = w.rec(sim, range(n), lambda sh, c: at)
            before = snapshot(rec)
            what = "%s with one GPS position for all, %s prior, orientation %d, method %s, from %r" % (lay, kind, tag, method, sim)
            res = align.align_reconstruction(rec, [], cfg(align_method=method, align_orientation_prior=kind))
            ck.expect(res is not None, "same-none", what)
            if res:
                moved(ck, before, rec, res, "same-move", what)
                ck.expect(abs(res[0] - 1) < 1e-9, "same-scale", "%s: scaled by %r" % (what, res[0]))
                cs = np.array([rec.shots[k].pose.get_origin() for k in w.ids])
                ck.expect(min(np.linalg.norm(cs - at, axis=1).min(), np.linalg.norm(cs.mean(axis=0) - at)) < 1e-6, "same-position", "%s: cameras at %r" % (what, cs))
    # two positions without a prior: the two cameras are where they should be
    for pos in ([(0, 0, 10), (12, -5, 10)], [(1, 2, 3), (1, 2, 9)], [(0, 0, 0), (-5, 0, 0)]):
        w = World(pos, look(2, "any"))
        rec = w.rec(sim, range(2))
        before = snapshot(rec)
        what = "pair %r, naive, from %r" % (pos, sim)
        res = align.align_reconstruction(rec, [], cfg(align_method="naive"))
        ck.expect(res is not None, "two-none", what)
        if res:
            moved(ck, before, rec, res, "two-move", what)
            for j, sid in enumerate(w.ids):
                c = rec.shots[sid].pose.get_origin()
                ck.expect(np.allclose(c, w.c[j], atol=1e-5), "two", "%s: camera %s at %r" % (what, sid, c))
        ck.outcome(("two", repr(pos), i))


def do_gcp(ck, i):
    """which control points count, and those without altitude"""
    w = World(LAYOUTS["generic"], look(5, "vertical"))
    for masks in itertools.product((0, 1, 3, 31), repeat=3):
        rec = w.rec(SIMS[i])
        g = w.gcps(rec, GCP_AT[:3], lambda k: [j for j in range(5) if masks[k] >> j & 1])
        for k in range(3):
            o = pymap.GroundControlPointObservation()
            o.shot_id = "elsewhere.jpg"
            g[k].add_observation(o)
        bare = pymap.GroundControlPoint()
        bare.id = "bare"
        bare.observations = g[0].observations
        X, Xp = align.triangulate_all_gcp(rec, g + [bare])
        s, aa, b = SIMS[i]
        A = rod(aa)
        want = [GCP_AT[k] for k in range(3) if bin(masks[k]).count("1") > 1]
        ck.ev()
        ok = len(X) == len(Xp) == len(want) and all(np.allclose(m, x, atol=1e-4) and np.allclose(t, A.T @ (np.array(x) - b) / s, atol=1e-4 * (1 + 1 / s))
                                                  for x, t, m in zip(want, X, Xp))
        ck.expect(ok, "gcp-used", "control points seen by %r give %r %r" % (masks, X, Xp))
        ck.outcome((masks, i))
    # flat control points
    s, aa, b = SIMS[i]
    for lay, yaw in itertools.product(("generic", "square", "line", "pair"), (0.0, 0.5, 2.0, math.pi)):
        n = len(LAYOUTS[lay])
        w = World(LAYOUTS[lay], look(n, "vertical"))
        rec = w.rec((s, (0, 0, yaw), b))
        g = w.gcps(rec, [(x, y, 0.0) for x, y, _ in GCP_AT], lambda k: range(n), altitude=False)
        what = "flat control points, %s from (%r, %r, %r)" % (lay, s, yaw, b)
        res = align.align_reconstruction(rec, g, cfg(align_orientation_prior="vertical"))
        ck.ev()
        ck.expect(res is not None, "flat-none", what)
        if res:
            for j, sid in enumerate(w.ids):
                p = rec.shots[sid].pose
                ck.expect(np.allclose(p.get_origin()[:2], w.c[j][:2], atol=2e-3) and np.allclose(p.get_rotation_matrix(), w.R[j], atol=1e-4), "flat",
                          "%s: camera %s at %r instead of %r" % (what, sid, p.get_origin(), w.c[j]))


RIG = [((0, 0, 0), (0, 0, 0)), ((0, 0.5, 0), (0.3, 0, 0.05))]


def do_rigs(ck, i):
    """rigs of several shots keep their size; rigs of one shot do not stop the scale"""
    s, aa, b = SIMS[i]
    for lay, method in itertools.product(("generic", "square", "triangle", "line"), ("auto", "orientation_prior", "naive")):
        if lay == "generic" and method == "orientation_prior" or lay == "line" and method == "naive":
            continue
        n = len(LAYOUTS[lay])
        for rigs, scale in ((RIG, 1.0), (RIG[:1], s)):
            w = World(LAYOUTS[lay], look(n, "horizontal"), rigs)
            rec = w.rec((scale, aa, b), range(n))
            before = snapshot(rec)
            what = "rigs of %d, %s, %s, from %r" % (len(rigs), lay, method, (scale, aa, b))
            res = align.align_reconstruction(rec, [], cfg(align_method=method, align_orientation_prior="horizontal"))
            ck.expect(res is not None, "rigs-none", what)
            if res:
                moved(ck, before, rec, res, "rigs-move", what)
                w.compare(ck, rec, "rigs", what, 1e-5)
            ck.outcome((lay, method, len(rigs), i))
        # positions that ask for another scale: not followed
        w = World(LAYOUTS[lay], look(n, "horizontal"), RIG)
        rec = w.rec((1.0, aa, b), range(n), lambda sh, c: 3.0 * c)
        what = "rigs with positions three times as wide, %s, %s, from %r" % (lay, method, SIMS[i])
        before = snapshot(rec)
        res = align.align_reconstruction(rec, [], cfg(align_method=method, align_orientation_prior="horizontal"))
        ck.expect(res is not None, "wide-none", what)
        if res:
            moved(ck, before, rec, res, "wide-move", what)
            ck.expect(abs(res[0] - 1) < 1e-6, "wide-scale", "%s: scaled by %r" % (what, res[0]))
            for j, sid in enumerate(w.ids):
                p = rec.rig_instances["i" + sid].pose
                want = w.c[j] + 2 * np.mean(w.c, axis=0)
                ck.expect(np.allclose(p.get_origin(), want, atol=1e-4) and np.allclose(p.get_rotation_matrix(), w.R[j], atol=1e-5), "wide",
                          "%s: %s at %r instead of %r" % (what, sid, p.get_origin(), want))
        # several positions in an instance: their average counts, from those shots that have one
        for have in ((0,), (1,), (0, 1)):
            w = World(LAYOUTS[lay], look(n, "horizontal"), RIG)
            off = [np.array([0.5, -0.25, 1.0]), np.array([-0.5, 0.25, -1.0])]
            rec = w.rec((1.0, aa, b))
            for sid, sh in rec.shots.items():
                j = int(sid[-1])
                if j in have:
                    k = w.ids.index(sid[:-2])
                    sh.metadata.gps_position.value = w.c[k] + (off[j] if len(have) == 2 else 0)
            what = "rigs with positions of shots %r, %s, %s, from %r" % (have, lay, method, SIMS[i])
            res = align.align_reconstruction(rec, [], cfg(align_method=method, align_orientation_prior="horizontal"))
            ck.expect(res is not None, "avg-none", what)
            w.compare(ck, rec, "avg", what, 1e-5)


def do_bias(ck, i):
    """control points place the reconstruction; each camera's bias takes its GPS there"""
    BS = [(1.0, (0, 0, 0), (0, 0, 0)), (1.0, (0, 0, 0), (30, -12, 4)), (1.1, (0, 0, 0.3), (5, 5, 5)), (0.5, (0.4, -0.2, 1.0), (-40, 2, 100))]
    centers = LAYOUTS["generic"] + [(9, 9, 13), (-6, -5, 10), (2, -9, 15)]
    n = len(centers)
    for ncam, b0, b1 in itertools.product((1, 2), BS, BS):
        if ncam == 1 and b1 is not BS[0]:
            continue
        bs = [b0, b1]
        w = World(centers, look(n, "vertical"), cams=ncam)

        def gps_of(sh, c):
            s, aa, t = bs[int(sh.camera.id[1])]
            return s * rod(aa) @ c + t
        for enabled, override, withgcp in itertools.product((True, False), (True, False), (True, False)):
            rec = w.rec(SIMS[i], range(n), gps_of)
            g = w.gcps(rec, GCP_AT, lambda k: range(n)) if withgcp else []
            if not withgcp or not (enabled and override):
                if b0 is not b1:  # contradictory positions
                    continue
                s, aa, t = b0
                want = World([s * rod(aa) @ c + t for c in w.c], [R @ rod(aa).T for R in w.R]) if not withgcp else None
            before = snapshot(rec)
            what = "biases %r with %d cameras, enabled %r override %r control points %r, from %r" % (bs, ncam, enabled, override, withgcp, SIMS[i])
            conf = cfg(bundle_compensate_gps_bias=enabled, align_orientation_prior="vertical")
            res = align.align_reconstruction(rec, g, conf, bias_override=override)
            ck.ev()
            if withgcp and enabled and override:
                ck.expect(res is not None, "bias-none", what)
                w.compare(ck, rec, "bias-place", what)
                for k, sid in enumerate(w.ids):
                    sh = rec.shots[sid]
                    got = rec.biases[sh.camera.id].transform(sh.metadata.gps_position.value)
                    ck.expect(np.allclose(got, w.c[k], atol=1e-4), "bias", "%s: the bias of %s takes the GPS of %s to %r instead of %r" % (what, sh.camera.id, sid, got, w.c[k]))
            elif not (enabled and override):
                ck.expect(res is not None, "bias-off-none", what)
                if res:
                    moved(ck, before, rec, res, "bias-off-move", what)
                for cid in rec.cameras:
                    x = np.array([3.0, 4.0, 5.0])
                    ck.expect(np.allclose(rec.biases[cid].transform(x), x), "bias-off", "%s: the bias of %s was changed" % (what, cid))
                if not withgcp:
                    for k, sid in enumerate(w.ids):
                        ck.expect(np.allclose(rec.shots[sid].pose.get_origin(), want.c[k], atol=1e-4), "bias-off-place", what)
            ck.outcome((ncam, repr(b0), repr(b1), enabled, override, withgcp, i))


def do_order(ck, _):
    """the order of shots and control points does not matter, and alignment of an aligned reconstruction changes nothing"""
    for i in range(len(SIMS)):
        for perm in itertools.permutations(range(4)):
            c = [LAYOUTS["generic"][k] for k in perm]
            w = World(c, look(4, "any"))
            rec = w.rec(SIMS[i], range(4))
            align.align_reconstruction(rec, [], cfg())
            w.compare(ck, rec, "order", "order %r from %r" % (perm, SIMS[i]))
            res = align.align_reconstruction(rec, [], cfg())
            ck.expect(res is not None and abs(res[0] - 1) < 1e-6 and np.allclose(res[1], np.eye(3), atol=1e-6) and np.allclose(res[2], 0, atol=1e-4), "again",
                      "alignment of an aligned reconstruction: %r" % (res,))
            ck.outcome((perm, i))


GPS = [None, {}, {"latitude": 47.0005}, {"latitude": 47.0005, "longitude": 8.501}, {"latitude": 46.9995, "longitude": 8.499, "altitude": 512.5},
       {"latitude": 46.9995, "longitude": 8.499, "altitude": 0.0, "dop": 3.5}, {"latitude": 47.0, "longitude": 8.5, "altitude": 20000.0, "dop": 0.0},
       {"latitude": 47.0, "longitude": 8.5, "altitude": -50.0, "dop": 0},
       {"latitude": 46.9998, "longitude": 8.5002, "altitude": 120.0, "dop": 0.02}]
OPK = [None, {"omega": 1.0}, {"omega": 1.0, "phi": -2.0, "kappa": 30.0}, {"omega": 0.0, "phi": 0.0, "kappa": 0.0, "accuracy": 0.25}, {"omega": 2.0, "phi": 1.0, "kappa": -3.0, "accuracy": 0.0}]
COMP = [None, {"angle": 30.0}, {"angle": 0.0, "accuracy": 5.0}, {"angle": 270.0, "accuracy": None}]
MISC = [{}, {"orientation": 6, "capture_time": 12.5, "skey": "seq"}, {"gravity_down": np.array([0.1, 0.9, -0.1]), "capture_time": 0.0}]


def do_meta(ck, gi):
    gps = GPS[gi]
    for opk, comp, misc, use_alt in itertools.product(OPK, COMP, MISC, (False, True)):
        ex = dict(misc)
        if gps is not None:
            ex["gps"] = gps
        if opk is not None:
            ex["opk"] = opk
        if comp is not None:
            ex["compass"] = comp
        m = helpers.exif_to_metadata(ex, use_alt, REF)
        ck.ev()

        def field(name, want):
            f = getattr(m, name)
            if want is None:
                ck.expect(not f.has_value, "meta-" + name, "%r gives %s %r" % (ex, name, f.value if f.has_value else None))
            else:
                ck.expect(f.has_value and (f.value == want if isinstance(want, str) else np.allclose(f.value, want, atol=1e-6)), "meta-" + name,
                          "%r (use altitude %r) gives %s %r instead of %r" % (ex, use_alt, name, f.value if f.has_value else None, want))
        if gps and "longitude" in gps:
            alt = min(10000.0, gps.get("altitude", 2.0)) if use_alt else 2.0
            field("gps_position", geo.topocentric_from_lla(gps["latitude"], gps["longitude"], alt, 47.0, 8.5, 300.0))
            field("gps_accuracy", gps.get("dop") or 15.0)
        else:
            field("gps_position", None)
            field("gps_accuracy", None)
        full = opk and "kappa" in opk
        field("opk_angles", [opk["omega"], opk["phi"], opk["kappa"]] if full else None)
        field("opk_accuracy", opk.get("accuracy", 1.0) if full else None)
        field("compass_angle", comp["angle"] if comp else None)
        field("compass_accuracy", comp.get("accuracy") if comp else None)
        field("orientation", misc.get("orientation", 1))
        field("capture_time", misc.get("capture_time"))
        field("sequence_key", misc.get("skey"))
        field("gravity_down", misc.get("gravity_down"))
        ck.outcome((gi, repr(opk), repr(comp), repr(misc), use_alt))


def up_of(tag):
    """upward in the raw image, for an image that is upright once turned"""
    return raw(np.array([[1.0, 0, 0], [0, 0, -1.0], [0, 1.0, 0]]), tag)[:2] @ [0, 0, 1]


def want_rotation(m):
    """(compass, up) of the camera, or an omega/phi/kappa matrix"""
    if m.get("opk"):
        o, p, k = np.radians(m["opk"])
        rx = rod((o, 0, 0))
        ry = rod((0, p, 0))
        rz = rod((0, 0, k))
        return ("R", np.diag([1.0, -1, -1]) @ (rx @ ry @ rz).T)
    up = -np.array(m["gravity"]) if m.get("gravity") is not None else np.append(up_of(m.get("orientation", 1)), 0.0)
    return ("up", up / np.linalg.norm(up), m.get("compass", 0.0))


def check_rotation(ck, R, m, key):
    ck.ev()
    want = want_rotation(m)
    R = np.array(R, float)
    ok = np.allclose(R @ R.T, np.eye(3), atol=1e-9) and np.linalg.det(R) > 0
    if want[0] == "R":
        ok = ok and np.allclose(R, want[1], atol=1e-9)
    else:
        z = R[2]
        flat = math.hypot(z[0], z[1])
        ok = ok and np.allclose(R[:, 2], want[1], atol=1e-9)
        if flat > 1e-6:
            d = math.degrees(math.atan2(z[0], z[1])) - want[2]
            ok = ok and abs((d + 180) % 360 - 180) < 1e-6
    ck.expect(ok, key, "metadata %r gives the rotation\n%r" % (m, R))


METAS = [dict(orientation=t, **({"compass": a} if a is not None else {})) for t in range(1, 9) for a in (None, 0.0, 45.0, 200.0, 359.0)] + [
    dict(gravity=g, compass=a, orientation=t) for g in ((0, 1, 0), (0.1, 0.9, -0.3), (1, 0, 0), (0, 0, 1), (0, 0, -1), (0, 2.5, 2.5)) for a in (0.0, 77.0, 180.0) for t in (1, 6)] + [
    dict(opk=o, compass=10.0, orientation=3) for o in ((0, 0, 0), (10, -20, 130), (89, 5, -170), (-45, 80, 0.5))]


def shot_with(rec, sid, m):
    sh = rec.create_shot(sid, "c0")
    if m.get("orientation"):
        sh.metadata.orientation.value = m["orientation"]
    if "compass" in m:
        sh.metadata.compass_angle.value = m["compass"]
    if m.get("gravity") is not None:
        sh.metadata.gravity_down.value = np.array(m["gravity"], float)
    if m.get("opk"):
        sh.metadata.opk_angles.value = np.array(m["opk"], float)
    return sh


def do_angles(ck, _):
    rec = types.Reconstruction()
    rec.add_camera(cam("c0"))
    for k, m in enumerate(METAS):
        sh = shot_with(rec, "s%d" % k, m)
        check_rotation(ck, helpers.rotation_from_shot_metadata(sh), m, "angles")
        ck.outcome(repr(m))
    sh = shot_with(rec, "none", {"compass": 4.0})
    ck.expect(helpers.rotation_from_shot_metadata(sh) is None, "angles-none", "a rotation out of nothing")


class Data:
    def __init__(self, exifs, rigs, cams):
        self.exifs, self.rigs, self.cams = exifs, rigs, cams
        self.config = cfg(use_altitude_tag=True)

    def init_reference(self, images=None):
        pass

    def load_reference(self):
        return REF

    def load_rig_assignments(self):
        return self.rigs

    def load_camera_models(self):
        return {c: cam(c) for c in self.cams}

    def load_exif(self, image):
        return self.exifs[image]


def do_frommeta(ck, part):
    places = [(47.0001 + 0.0003 * i, 8.4998 + 0.0002 * i, 310.0 + i) for i in range(3)]
    for n, (combo, mask) in enumerate(itertools.product(itertools.product(range(0, len(METAS), 7), repeat=3), range(8))):
        if n % 4 != part:
            continue
        exifs = {}
        for i in range(3):
            m = METAS[combo[i]]
            ex = {"camera": "c%d" % (i % 2), "orientation": m.get("orientation", 1)}
            if mask >> i & 1:
                ex["gps"] = dict(zip(("latitude", "longitude", "altitude"), places[i]))
            if "compass" in m:
                ex["compass"] = {"angle": m["compass"]}
            if m.get("gravity") is not None:
                ex["gravity_down"] = np.array(m["gravity"], float)
            if m.get("opk"):
                ex["opk"] = dict(zip(("omega", "phi", "kappa"), map(float, m["opk"])))
            exifs["im%d" % i] = ex
        rec = helpers.reconstruction_from_metadata(Data(exifs, {}, ("c0", "c1", "c2")), sorted(exifs))
        ck.ev()
        want = {"im%d" % i for i in range(3) if mask >> i & 1}
        ck.expect(set(rec.shots) == want and set(rec.cameras) == {"c0", "c1", "c2"}, "frommeta-shots", "GPS of %r: shots %r" % (want, set(rec.shots)))
        for i in range(3):
            if not mask >> i & 1:
                continue
            sh = rec.shots["im%d" % i]
            pos = geo.topocentric_from_lla(*places[i], 47.0, 8.5, 300.0)
            ck.expect(sh.camera.id == "c%d" % (i % 2) and np.allclose(sh.pose.get_origin(), pos, atol=1e-6), "frommeta-position", "%s is at %r instead of %r" % (sh.id, sh.pose.get_origin(), pos))
            check_rotation(ck, sh.pose.get_rotation_matrix(), METAS[combo[i]], "frommeta-rotation")
        ck.outcome((combo, mask))
