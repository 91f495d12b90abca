"""C45: the analysis of the annotation tool merges, aligns, splits and measures reconstructions exactly."""
import itertools
import json
import math
import os
import shutil
import sys
import tempfile

import boot
import numpy as np
from opensfm import align as oalign, dataset, io, pygeometry, pymap, types

from bascene import POINTS, REF, Scene, wob
from scene import rod

sys.path.insert(0, os.path.join(boot.REPO, "annotation_gui_gcp"))
import run_ba  # noqa: E402

LEVEL = "exploration"
RULE = ("all places of two reconstructions of the same world relative to each other x camera types x rigs x who sees which control point x one wrong "
        "annotation anywhere x rigid or bundled; images resected from control points; CAD models in any place with any number of annotated points; "
        "non-trivial: distinct datasets")
ASSUMPTIONS = ["control points are well spread; annotations are exact but for the one displaced",
               "covariances are only asked for (see the known findings), not judged"]
GCPS = [(1, 1, 1), (-2, 0.5, 0), (0.5, -1.5, -0.5), (1.5, 0, 2), (-1, -1, 1), (0.2, 0.3, 1.4)]
IDS = ["10", "1", "11", "g 2", "0", "1a"]
SIMS = [(1.0, (0, 0, 0), (0, 0, 0)), (2.5, (0.3, -0.2, 0.9), (10, -3, 4)), (0.2, (2.0, 1.0, -0.5), (-100, 50, 7)), (1.0, (0, 0, 3.1), (0.5, 0, 0)), (7.0, (1.2, -1.9, 0.4), (0, 0, -20))]
SEES = {"all": lambda k, n: True, "some": lambda k, n: (k + n) % 4 != 0, "three": lambda k, n: k < 3 or n % 4 == k % 4,
        "one side": lambda k, n: k < 4 or (n < 4 if k == 4 else n >= 4)}


def cases(ck):
    out = [["pair", t, rig, i] for t in ("perspective", "brown", "fisheye") for rig in (None, "pair") for i in range(len(SIMS))]
    out += [["join", rig, n] for rig in (None, "pair") for n in (1, 2, 3)]
    out += [["resect", t] for t in ("perspective", "brown", "fisheye", "spherical")]
    out += [["cad", i] for i in range(len(SIMS))]
    out += [["fit", n] for n in range(3, 7)]
    out += [["covariance"]]
    return out


def check(ck, case):
    globals()["p_" + case[0]](ck, *case[1:])


def part(S, ids, points, sim=None, observed=True, prefix=""):
    """the reconstruction of some of the images, seen in coordinates of its own"""
    rec, _, _ = S.build()
    for s in list(rec.shots.keys()):
        if s not in ids:
            rec.remove_shot(s)
    for i in list(rec.rig_instances.keys()):
        if not list(rec.rig_instances[i].shots):
            rec.map.remove_rig_instance(i)
    for p in list(rec.points.keys()):
        if p not in points:
            rec.map.remove_landmark(p)
    for n, p in enumerate(rec.points.values()):
        p.color = (n, 100 + n, 200 - n)
    if sim is not None:
        s, r, t = sim
        oalign.apply_similarity(rec, s, rod(r), np.array(t, float))
    return rec


def tracks(S):
    tm = pymap.TracksManager()
    for s in S.shots:
        for n, x in enumerate(S.points):
            q = S.project(s, x)
            tm.add_observation(s[0], "p%d" % n, pymap.Observation(q[0], q[1], 0.004, 10, 20, 30, n))
    return tm


class Set:
    """a dataset on disk"""

    def __init__(self, S, recs, gcps, cad=(), wrong=None):
        self.root = tempfile.mkdtemp()
        os.mkdir(os.path.join(self.root, "images"))
        for s in S.shots:
            open(os.path.join(self.root, "images", s[0]), "w").close()
        with open(os.path.join(self.root, "config.yaml"), "w") as f:
            f.write("processes: 1\n")
        d = self.data = dataset.DataSet(self.root)
        assert sorted(d.images()) == sorted(s[0] for s in S.shots)
        d.save_camera_models({c.id: c for c in S.cams})
        for s in S.shots:
            d.save_exif(s[0], {"camera": S.cams[s[4]].id, "width": 1000, "height": 800, "orientation": 1, "capture_time": 0.0, "gps": {}})
        d.save_reference(REF)
        if S.rig:
            d.save_rig_cameras({"r%d" % j: pymap.RigCamera(pygeometry.Pose(np.array(a, float), np.array(b, float)), "r%d" % j) for j, (a, b) in enumerate(S.rig)})
        d.save_reconstruction(recs)
        d.save_tracks_manager(tracks(S))
        obj = []
        for k, g in enumerate(gcps):
            o = [{"shot_id": x.shot_id, "projection": list(map(float, x.projection + (np.array([0.05, -0.03]) if wrong == (g.id, x.shot_id) else 0)))} for x in g.observations]
            o += [{"shot_id": name, "projection" if old else "point": list(map(float, xyz[k]))} for name, xyz, old in cad if xyz[k] is not None]
            obj.append({"id": g.id, "observations": o, **({"position": g.lla} if g.lla else {})})
        with open(os.path.join(self.root, "ground_control_points.json"), "w") as f:
            json.dump({"points": obj}, f)

    def load(self, name):
        with open(os.path.join(self.root, name)) as f:
            return json.load(f)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.root)


def rename(S):
    """image names like those of files"""
    S.shots = [(s[0] + ".jpg",) + s[1:] for s in S.shots]
    return S


def off(rec, S, points):
    """how far a reconstruction is from the truth"""
    o = {s[0]: s for s in S.shots}
    worst = 0.0
    for sid, sh in rec.shots.items():
        R, t = S.rt(o[sid])
        worst = max(worst, np.abs(sh.pose.get_R_world_to_cam() - R).max(), np.abs(sh.pose.get_origin() + R.T @ t).max())
    for pid, p in rec.points.items():
        worst = max(worst, np.abs(p.coordinates - S.points[int(pid[1:] if pid[0] == "p" else pid.split("_p")[1])]).max())
    return worst


def same(ck, what, a, b, tol=1e-6):
    """two reconstructions have the same cameras, images and points at the same places"""
    ck.expect(set(a.shots.keys()) == set(b.shots.keys()) and set(a.points.keys()) == set(b.points.keys()) and set(a.cameras.keys()) == set(b.cameras.keys()), "content",
              "%s: images %s, points %s instead of %s, %s" % (what, sorted(a.shots.keys()), sorted(a.points.keys()), sorted(b.shots.keys()), sorted(b.points.keys())))
    for s in set(a.shots.keys()) & set(b.shots.keys()):
        x, y = a.shots[s], b.shots[s]
        e = max(np.abs(x.pose.get_R_world_to_cam() - y.pose.get_R_world_to_cam()).max(), np.abs(x.pose.get_origin() - y.pose.get_origin()).max())
        ck.expect(e < tol and x.camera.id == y.camera.id, "place", "%s: %s is %g away" % (what, s, e))
        ck.expect((x.rig_instance_id, x.rig_camera_id) == (y.rig_instance_id, y.rig_camera_id), "rig", "%s: %s is in %s" % (what, s, (x.rig_instance_id, x.rig_camera_id)))
    for p in set(a.points.keys()) & set(b.points.keys()):
        x, y = a.points[p], b.points[p]
        ck.expect(np.abs(x.coordinates - y.coordinates).max() < tol and list(x.color) == list(y.color), "point", "%s: %s at %s, colour %s instead of %s, %s" % (
            what, p, x.coordinates, x.color, y.coordinates, y.color))


def p_pair(ck, t, rig, i):
    for sees, wrong, rigid, lla in itertools.product(SEES, (None, ("g1", 0), ("g2", -1)), (True, False), (True, False)):
        if (not rigid or rig) and (sees not in ("all", "some") or wrong):
            continue
        if not rigid and not lla:
            continue
        S = rename(Scene((t,), n=4 if rig else 8, rig=rig))
        ids = [s[0] for s in S.shots]
        halves = ids[:4], ids[4:]
        pts = {"p%d" % n for n in range(0, 9)}, {"p%d" % n for n in range(5, 14)}
        gcps = S.gcps(GCPS, SEES[sees], lla=lla)
        bad = (wrong[0], ids[wrong[1]]) if wrong else None
        recs = [part(S, halves[0], pts[0]), part(S, halves[1], pts[1], SIMS[i])]
        what = "%s, rig %s, second reconstruction in place %d, %s see control points, wrong %s, %s, positions %s" % (t, rig, i, sees, bad, "rigid" if rigid else "bundled", lla)
        with Set(S, recs, gcps, wrong=bad) as D:
            ck.ev()
            ck.outcome(("pair", t, rig, i, sees, wrong, rigid, lla))
            run_ba.align(D.root, 0, 1, rigid, False, 0.016, 0.3)
            got = D.data.load_reconstruction("reconstruction_gcp_rigid_0x1.json")
            ck.expect(len(got) == 2, "rigid", what)
            same(ck, what + ", first", got[0], recs[0])
            e = off(got[1], S, pts[1])
            ck.expect(bad or e < 1e-5, "aligned", "%s: the second is %g away from its place" % (what, e))
            ck.expect(set(got[1].shots.keys()) == set(halves[1]) and set(got[1].points.keys()) == pts[1], "rigid", what + ": content of the second")
            for s, sh in got[1].shots.items():
                ck.expect(sh.metadata.gps_position.has_value and np.allclose(sh.metadata.gps_position.value, sh.pose.get_origin(), atol=1e-6), "gps", "%s: GPS of %s" % (what, s))
            split = D.data.load_reconstruction("reconstruction_gcp_ba_resplit_0x1.json")
            ck.expect(len(split) == 2, "resplit", what)
            if rigid:
                for a, b in zip(split, got):
                    same(ck, what + ", split again", a, b)
            else:
                for k, a in enumerate(split):
                    ck.expect(set(a.shots.keys()) == set(halves[k]) and set(a.points.keys()) == pts[k], "resplit", "%s: part %d has %s, %s" % (what, k, sorted(a.shots.keys()), sorted(a.points.keys())))
                    e = off(a, S, pts[k])
                    ck.expect(e < (0.3 if rig else 1e-4), "bundled", "%s: part %d ends %g away from the truth" % (what, k, e))
                merged = D.data.load_reconstruction("reconstruction_gcp_ba_0x1.json")
                ck.expect(len(merged) == 1 and set(merged[0].shots.keys()) == set(ids) and set(merged[0].points.keys()) == {"R%d_%s" % (k, p) for k in (0, 1) for p in pts[k]}, "merged", what)
                errs = D.load("gcp_alignment_0x1.json")
                for stage in ("after_rigid", "after_bundle"):
                    ck.expect(set(errs[stage]) == {g.id for g in gcps}, "geo", what)
                    for k, g in enumerate(gcps):
                        v = errs[stage].get(g.id, {})
                        x, y = np.array(v.get("expected_xyz", [9e9] * 3)), np.array(v.get("triangulated_xyz", [-9e9] * 3))
                        flat = [np.array(REF.to_topocentric(*REF.to_lla(*map(float, z))[:2], 0.0)) for z in (x, y)]
                        ck.expect(np.abs(x - GCPS[k]).max() < 1e-5 and np.abs(y - x).max() < (1e-3 if stage == "after_rigid" or not rig else 0.3) and abs(v["error"] - np.linalg.norm(x - y)) < 1e-6 and
                                  abs(v["error_planar"] - np.linalg.norm(flat[0] - flat[1])) < 1e-4 and all(
                                      np.allclose(v[n], REF.to_lla(*map(float, z)), rtol=0, atol=1e-6) for n, z in (("expected_lla", x), ("triangulated_lla", y))), "geo", "%s, %s: %s at %s has %s" % (what, stage, g.id, GCPS[k], v))
            # errors of the annotations
            rep = D.load("gcp_reprojections_0x1.json")
            base = {sid: sh for r in split for sid, sh in r.shots.items()}
            loaded = D.data.load_ground_control_points()
            ck.expect(set(rep) == {g.id for g in loaded}, "reprojections", what)
            errs = []
            for g in loaded:
                os_, bs = [], []
                for o in g.observations:
                    sh = base[o.shot_id]
                    os_.append(sh.pose.get_origin())
                    bs.append(sh.pose.get_R_world_to_cam().T @ sh.camera.pixel_bearing(o.projection))
                X = np.linalg.solve(sum(np.eye(3) - np.outer(b, b) for b in bs), sum((np.eye(3) - np.outer(b, b)) @ o for o, b in zip(os_, bs)))
                ck.expect(set(rep[g.id]) == {o.shot_id for o in g.observations}, "reprojections", "%s: %s in %s" % (what, g.id, sorted(rep[g.id])))
                for o in g.observations:
                    v = rep[g.id].get(o.shot_id)
                    if v is None:
                        continue
                    q = base[o.shot_id].project(X)
                    errs.append(np.linalg.norm(q - o.projection))
                    ck.expect(np.allclose(v["reprojection"], q, atol=1e-6) and abs(v["error"] - errs[-1]) < 1e-6 and np.allclose(v["lla"], REF.to_lla(*X), rtol=0, atol=1e-3 if not rigid else 1e-5),
                              "reprojection", "%s: %s in %s: %s instead of %s" % (what, g.id, o.shot_id, v, (q, errs[-1], REF.to_lla(*X))))
            m = D.load("run_ba_metrics_0x1.json")
            if all(abs(x - 0.016) > 1e-5 for x in errs):
                ck.expect(m["n_bad_gcp_annotations"] == sum(x > 0.016 for x in errs) and (m["n_bad_gcp_annotations"] > 0) == bool(bad), "metrics", "%s: %s for errors %s" % (what, m, errs))
            ck.expect(abs(m["max_reprojection_error"] - max(errs)) < 1e-6 and abs(m["median_reprojection_error"] - np.median(errs)) < 1e-6 and
                      (m["n_gcp"], m["n_reconstructions"], m["rec_a"], m["rec_b"]) == (len(gcps), 2, 0, 1), "metrics", "%s: %s" % (what, m))
            if bad:
                order = run_ba.get_sorted_reprojection_errors(rep)
                ck.expect([x[2] for x in order] == sorted((x[2] for x in order), reverse=True) and len(order) == len(errs), "order", what)
                ck.expect(order[0][:2] == bad, "order", "%s: %s is found worst" % (what, order[0]))
                n = run_ba.get_number_of_wrong_annotations_per_gcp(rep, 0.016)
                ck.expect(n == {g: sum(v["error"] > 0.016 for v in r.values()) for g, r in rep.items()}, "count", "%s: %s" % (what, n))
            ck.expect(abs(run_ba.compute_gcp_std(rep) - math.sqrt(np.mean(np.square(errs)))) < 1e-6, "std", what)


def p_join(ck, rig, n):
    """joining and splitting, whoever shares points and whether the tracks know the images"""
    S = rename(Scene(("perspective", "brown"), n=6 if not rig else 4, rig=rig))
    ids = [s[0] for s in S.shots]
    insts = sorted({s[1] for s in S.shots})
    for assign in itertools.product(range(n), repeat=len(insts)):
        if set(assign) != set(range(n)) or ck.quick and sum(a * (k + 1) for k, a in enumerate(assign)) % 5 and n > 2:
            continue
        for share in (0, 2, 5):
            recs, pts = [], []
            for r in range(n):
                mine = {s[0] for s in S.shots if assign[insts.index(s[1])] == r}
                pts.append({"p%d" % k for k in range(len(S.points)) if k < share or k % n == r})
                recs.append(part(S, mine, pts[r]))
            tm = tracks(S)
            if share == 2:  # one image is not in the tracks
                sub = pymap.TracksManager()
                for s in ids[1:]:
                    for t, o in tm.get_shot_observations(s).items():
                        sub.add_observation(s, t, o)
                tm = sub
            what = "%d reconstructions, rig %s, images in %s, %d points shared" % (n, rig, assign, share)
            ck.ev()
            ck.outcome(("join", rig, assign, share))
            m = run_ba.merge_reconstructions(recs, tm)
            ck.expect(set(m.shots.keys()) == set(ids) and set(m.points.keys()) == {"R%d_%s" % (r, p) for r in range(n) for p in pts[r]}, "merged", "%s: %s, %s" % (what, sorted(m.shots.keys()), sorted(m.points.keys())))
            for r, rec in enumerate(recs):
                for s, sh in rec.shots.items():
                    seen = {x.id for x in m.shots[s].get_valid_landmarks()}
                    want = {"R%d_%s" % (r, p) for p in pts[r]} if s in tm.get_shot_ids() else set()
                    alien = {x for x in seen if not x.startswith("R%d_" % r)}
                    ck.expect(want <= seen, "observations", "%s: %s sees %s instead of %s" % (what, s, sorted(seen), sorted(want)))
                    for x in m.shots[s].get_valid_landmarks():
                        o, w = m.shots[s].get_landmark_observation(x), tm.get_observation(s, x.id.split("_", 1)[1])
                        ck.expect(np.array_equal(o.point, w.point) and o.scale == w.scale and not alien, "observations", "%s: %s in %s" % (what, x.id, s))
            for r, (a, b) in enumerate(zip(run_ba.resplit_reconstruction(m, recs), recs)):
                same(ck, "%s, part %d" % (what, r), a, b)
            # points that are lost in between are lost
            gone = sorted(m.points.keys())[::3]
            for p in gone:
                m.remove_point(p)
            for r, a in enumerate(run_ba.resplit_reconstruction(m, recs)):
                ck.expect(set(a.points.keys()) == {p for p in pts[r] if "R%d_%s" % (r, p) not in gone}, "lost", "%s: part %d has %s" % (what, r, sorted(a.points.keys())))


def p_resect(ck, t):
    S = rename(Scene((t,), n=8))
    ids = [s[0] for s in S.shots]
    gcps = S.gcps(GCPS, lambda k, n: True)
    others = ids[4:]
    for per in itertools.product((0, 2, 3, 4, 6), repeat=2):
        # the number of points annotated in two of the images that are not reconstructed; the rest has all or none
        count = dict(zip(others, per + (6, 0)))
        gs = S.gcps(GCPS, lambda k, n: n < 4 or k < count[ids[n]])
        recs = [part(S, ids[:4], {"p%d" % n for n in range(14)}), part(S, [ids[3]], {"p0", "p1"}, SIMS[1])]
        what = "%s images resected from %s control points" % (t, count)
        with Set(S, recs, gs) as D:
            ck.ev()
            ck.outcome(("resect", t, per))
            run_ba.align(D.root, 0, None, True, False, 0.016, 0.3)
            got = D.data.load_reconstruction("reconstruction_gcp_rigid_0xNone.json")
            want = {s for s, c in count.items() if c >= 3}
            same(ck, what, got[0], recs[0])
            # with three points there may be more than one solution
            sure = {s for s, c in count.items() if c >= 4}
            r = got[1]
            ck.expect(set(r.shots.keys()) == want, "resected", "%s: %s" % (what, sorted(r.shots.keys())))
            for s in sure & set(r.shots.keys()):
                R, tr = S.rt(S.shots[ids.index(s)])
                e = max(np.abs(r.shots[s].pose.get_R_world_to_cam() - R).max(), np.abs(r.shots[s].pose.get_origin() + R.T @ tr).max())
                ck.expect(e < 0.05 and r.shots[s].camera.id == "c0", "resected", "%s: %s is %g away from its place" % (what, s, e))
            for s in want & set(r.shots.keys()):
                sh = r.shots[s]
                for k in range(count[s]):
                    b = sh.pose.get_R_world_to_cam() @ (np.array(GCPS[k], float) - sh.pose.get_origin())
                    w = S.cams[0].pixel_bearing(gs[k].observations[[o.shot_id for o in gs[k].observations].index(s)].projection)
                    ck.expect(np.linalg.norm(b / np.linalg.norm(b) - w) < 0.011 or count[s] > 3, "resected", "%s: %s sees %s elsewhere" % (what, s, gs[k].id))
            ck.expect(not r.points and r.reference.lat == REF.lat, "resected", what)


def p_cad(ck, i):
    """control points annotated in CAD models, of which the reconstruction knows none, some or all"""
    S = rename(Scene(("perspective",), n=4))
    ids = [s[0] for s in S.shots]
    s, r, t = SIMS[i]
    A, b = rod(r), np.array(t, float)
    for known, marked, old in itertools.product(range(0, len(GCPS) + 1), (0, 2, 3, 4, 6), (False, True)):
        gcps = S.gcps(GCPS, lambda k, n: k < known or n == 0)
        for k, g in enumerate(gcps):
            g.id = IDS[k]
        model = [s * A @ np.array(x, float) + b if k < marked else None for k, x in enumerate(GCPS)]
        second = [np.array(x, float) * 2 for x in GCPS[:5]] + [None]
        recs = [part(S, ids, {"p0", "p1", "p2"})]
        what = "CAD model in place %d, %d points annotated in it, %d known%s" % (i, marked, known, ", file of an old version" if old else "")
        with Set(S, recs, gcps, cad=[("house.fbx", model, old), ("tree.fbx", second, False)]) as D:
            ck.ev()
            ck.outcome(("cad", i, known, marked, old))
            try:
                run_ba.align(D.root, 0, 1, True, False, 0.016, 0.3)
            except Exception as e:
                ck.fail("cad", "%s: %s: %s" % (what, type(e).__name__, e))
                return
            for name, pts, sc, AA, bb in (("house.fbx", model, s, A, b), ("tree.fbx", second, 2.0, np.eye(3), np.zeros(3))):
                both = [k for k in range(len(GCPS)) if pts[k] is not None and k < known]
                f = os.path.join(D.root, "gcp_reprojections_3D_0x%s.json" % name)
                g = os.path.join(D.root, "affine_alignment_0x%s.json" % name)
                if len(both) < 3:
                    ck.expect(not os.path.exists(f) and not os.path.exists(g) or not json.load(open(f)), "cad", "%s: %s is aligned" % (what, name))
                    continue
                got, al = json.load(open(f)), json.load(open(g))
                ck.expect(set(got) == {IDS[k] for k in range(len(GCPS)) if pts[k] is not None}, "cad", "%s: %s has %s" % (what, name, sorted(got)))
                for k in range(len(GCPS)):
                    v = got.get(IDS[k])
                    if pts[k] is None:
                        continue
                    if k in both:
                        ck.expect(v is not None and np.allclose(v, pts[k], atol=1e-4 * max(1, sc)), "cad", "%s: g%d at %s instead of %s" % (what, k, v, pts[k]))
                    else:
                        ck.expect(v is None, "cad", "%s: g%d, not known, at %s" % (what, k, v))
                ck.expect(np.allclose(al["s"], sc, rtol=1e-5) and np.allclose(al["A"], AA, atol=1e-5) and np.allclose(al["b"], bb, atol=1e-3), "cad", "%s: alignment %s" % (what, al))
            for p in D.load("ground_control_points.json")["points"]:
                for o in p["observations"]:
                    ck.expect(("point" in o) == o["shot_id"].endswith("fbx") and len(o.get("point", [0] * 3)) == 3 and len(o.get("projection", [0] * 2)) == 2, "file", "%s: %s" % (what, o))


def p_fit(ck, n):
    """the similarity between two lists of points, of which some are missing"""
    pts = [np.array(p, float) for p in POINTS[:n]]
    for (s, r, t), miss in itertools.product(SIMS, itertools.product((0, 1, 2), repeat=n)):
        if sum(m == 0 for m in miss) < 3:
            continue
        ck.ev()
        ck.outcome(("fit", n, s, miss))
        A, b = rod(r), np.array(t, float)
        q = [s * A @ p + b for p in pts]
        a = [None if m == 1 else p for p, m in zip(pts, miss)]
        c = [None if m == 2 else p for p, m in zip(q, miss)]
        s2, A2, b2 = run_ba.find_alignment(a, c)
        ck.expect(abs(s2 - s) < 1e-6 * s and np.allclose(A2, A, atol=1e-6) and np.allclose(b2, b, atol=1e-4), "fit", "%d points without %s: %s %s %s instead of %s" % (n, miss, s2, A2, b2, (s, r, t)))


def p_covariance(ck):
    """the analysis with covariances ends with a standard deviation per image"""
    S = rename(Scene(("perspective",), n=8))
    ids = [s[0] for s in S.shots]
    recs = [part(S, ids[:4], {"p%d" % n for n in range(9)}), part(S, ids[4:], {"p%d" % n for n in range(5, 14)})]
    with Set(S, recs, S.gcps(GCPS, SEES["all"])) as D:
        ck.ev()
        ck.outcome("covariance")
        try:
            run_ba.align(D.root, 0, 1, False, True, 0.016, 0.3)
        except AttributeError as e:
            ck.fail("covariance", "the analysis with covariances fails: %s" % e)
            return
        rows = [x.split(", ") for x in open(os.path.join(D.root, "shots_std_0x1.csv")).read().split("\n") if x]
        ck.expect(sorted(r[0] for r in rows) == sorted(ids) and all(float(r[1]) >= 0 or math.isnan(float(r[1])) for r in rows), "std-file", repr(rows))
