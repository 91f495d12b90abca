"""C41: extending, bundling and triangulating again start from the reconstruction named and keep what it has."""
import contextlib
import io as sio
import itertools
import json

import c22
import numpy as np
from opensfm import io, pygeometry, pymap, types
from opensfm.actions import bundle, create_tracks, detect_features, extend_reconstruction, match_features, reconstruct_from_prior

LEVEL = "exploration"
RULE = ("all subsets of images of small scenes as prior x scene kinds (one camera, two, rigs, wrong observations, images without tracks) x names of input "
        "and output x settings; all small sets of tracks, pairs and feature reports; non-trivial: distinct priors and outcomes")
ASSUMPTIONS = ["observations are exact but for the wrong ones, all images have a GPS position", "every image of a prior shares at least 100 tracks with another one"]
REF = c22.REF
NAMES = [(None, None), ("prior.json", "out.json"), (None, "out.json"), ("prior.json", None), ("prior.json", "prior.json")]
SCENES = ["plain", "two", "wrong", "groups", "blank", "spherical"]


def cases(ck):
    out = [["extend", s, k] for s in SCENES for k in range(2, 6)] + [["extend", "rigs", k] for k in (2, 3)] + [["extend-none"]]
    out += [["bundle", s, n] for s in SCENES + ["rigs"] for n in range(0, 3)]
    out += [["prior", s, k] for s in SCENES + ["rigs"] for k in range(2, 6) if s != "rigs" or k < 4]
    out += [["tracks", n] for n in range(0, 4)] + [["matches", n] for n in range(0, 4)] + [["features", n] for n in range(0, 4)]
    return out


def check(ck, case):
    globals()["do_" + case[0].replace("-", "_")](ck, *case[1:])


def scene(kind, **cfg):
    if kind == "plain":
        w = c22.World(5, [(120, range(5))], **cfg)
    elif kind == "two":
        w = c22.World(5, [(120, range(5))], kinds=("perspective", "brown"), **cfg)
    elif kind == "spherical":
        w = c22.World(5, [(120, range(5))], kinds=("spherical",), **cfg)
    elif kind == "wrong":
        w = c22.World(5, [(140, range(5))], wrong=[(i, 0, k) for i in range(5) for k in range(i, 140, 11)], **cfg)
    elif kind == "groups":                                  # image 4 can only be added once 2 or 3 are; image 3 has few tracks
        w = c22.World(5, [(110, (0, 1, 2)), (100, (0, 1, 3)), (105, (2, 3, 4))], **cfg)
    elif kind == "blank":
        w = c22.World(5, [(120, range(4))], **cfg)
    else:
        w = c22.World(3, [(120, range(3))], rigs=c22.RIGPAIR, **cfg)
    w.groups = {"plain": [(120, range(5))], "two": [(120, range(5))], "spherical": [(120, range(5))], "wrong": [(140, range(5))],
                "groups": [(110, (0, 1, 2)), (100, (0, 1, 3)), (105, (2, 3, 4))], "blank": [(120, range(4))], "rigs": [(120, range(3))]}[kind]
    d = w.data
    d.files, d.written = {}, []

    def load(filename=None):
        return io.reconstructions_from_json(json.loads(d.files[filename or "reconstruction.json"]))

    def save(recs, filename=None, minify=False):
        d.files[filename or "reconstruction.json"] = json.dumps(io.reconstructions_to_json(recs))
        d.written.append(filename or "reconstruction.json")
    d.load_reconstruction, d.save_reconstruction = load, save
    return w


def insts(w):
    return sorted(set(w.inst.values()))


def prior(w, chosen, shift=0.0, points=True, tag=0):
    """a reconstruction of these instances at their places (moved a little), with the points that several of them see"""
    rec = types.Reconstruction()
    rec.reference = REF
    ids = [s for s in w.images if w.inst[s] in chosen]
    for c in w.cams:
        if any(w.cam[s] is c for s in ids):
            rec.add_camera(c)
    if w.data.rigcams:
        for r in w.data.rigcams.values():
            rec.add_rig_camera(r)
        for inst, shots in w.data.assign.items():
            if shots[0][0] not in ids:
                continue
            ri = rec.add_rig_instance(pymap.RigInstance(inst))
            for sid, rc in shots:
                rec.create_shot(sid, w.cam[sid].id, rig_camera_id=rc, rig_instance_id=inst)
            p = c22.bascene.pose(np.eye(3), (0, 0, 0))
            q = w.data.rigcams[shots[0][1]].pose
            p = q.inverse().compose(w.pose[shots[0][0]])
            ri.pose = moved(p, shift, len(inst) + tag)
    else:
        for k, s in enumerate(ids):
            rec.create_shot(s, w.cam[s].id, moved(w.pose[s], shift, k + tag))
    for s in ids:
        m = rec.shots[s].metadata
        ex = w.data.exifs[s]
        if "gps" in ex:
            g = ex["gps"]
            m.gps_position.value = REF.to_topocentric(g["latitude"], g["longitude"], g["altitude"])
            m.gps_accuracy.value = 5.0
        m.orientation.value = 1
        m.capture_time.value = 7.0
    if points:
        for t, X in w.X.items():
            see = w.right[t] & set(ids)
            if len(see) >= 2 and w.angle(t, see) > 0.03:
                rec.create_point(t, X + shift * 0.3 * np.array([1, -1, 0.5]))
                rec.points[t].color = [1, 2, 3]
    return rec


def moved(pose, shift, k):
    p = pygeometry.Pose(pose.rotation, pose.translation)
    if shift:
        p.set_origin(pose.get_origin() + shift * np.array([[1, 0, -1], [-1, 1, 0], [0.5, -1, 1], [0, 1, 1]][k % 4]))
    return p


def quietly(f, *a):
    with contextlib.redirect_stdout(sio.StringIO()):
        return f(*a)


def do_extend(ck, kind, k):
    base = scene(kind)
    for chosen in itertools.combinations(insts(base), k):
        if ck.quick and kind not in ("plain", "groups") and sum(chosen) % 2:
            continue
        for names in NAMES:
            if ck.quick and names != NAMES[(sum(chosen) + k) % len(NAMES)]:
                continue
            w = scene(kind)
            d = w.data
            what = "%s from %r, %r: " % (kind, chosen, names)
            src, dst = names[0] or "reconstruction.json", names[1] or "reconstruction.json"
            first = prior(w, chosen)
            if len(first.points) < 50:
                continue
            decoy = prior(w, insts(w)[:2], 0.5)
            for f in ("reconstruction.json", "prior.json"):
                d.save_reconstruction([first if f == src else decoy] + ([decoy] if sum(chosen) % 2 else []), f)
            before, d.written = dict(d.files), []
            tracks = {s: sorted(w.tm.get_shot_observations(s)) for s in w.tm.get_shot_ids()}
            quietly(extend_reconstruction.run_dataset, d, *names)
            ck.ev()
            ck.expect(d.written == [dst] and {f: v for f, v in d.files.items() if f != dst} == {f: v for f, v in before.items() if f != dst}, "extend-files", what + "wrote %r" % d.written)
            recs = d.load_reconstruction(names[1])
            if not ck.expect(len(recs) == 1, "extend-count", what + "%d reconstructions" % len(recs)):
                continue
            rec = recs[0]
            inside = c22.grown(w, w.groups, chosen, 10)
            want = {s for s in w.images if w.inst[s] in inside}
            got = set(rec.shots.keys())
            ck.expect({s for s in w.images if w.inst[s] in chosen} <= got, "extend-lost", what + "%r" % sorted(got))
            if not ck.expect(got == want, "extend-images", what + "%r instead of %r" % (sorted(got), sorted(want))):
                continue
            for s in got:
                p, q = rec.shots[s].pose, w.pose[s]
                tol = 2e-2 if len({w.inst[x] for x in got}) == 2 else 4e-3
                ck.expect(np.linalg.norm(p.get_origin() - q.get_origin()) < 10 * tol and np.abs(p.get_rotation_matrix() - q.get_rotation_matrix()).max() < tol, "extend-pose",
                          what + "%s is at %r instead of %r" % (s, p.get_origin(), q.get_origin()))
                ck.expect(rec.shots[s].camera.id == w.cam[s].id, "extend-camera", what + s)
            for t, p in rec.points.items():
                ck.expect(np.linalg.norm(p.coordinates - w.X[t]) < 0.2 or any((s, t) in w.wrong for s in w.images), "extend-point", what + "%s is at %r instead of %r" % (t, p.coordinates, w.X[t]))
            lim = 1.2 * np.radians(d.config["triangulation_min_ray_angle"])
            have = set(rec.points.keys())
            for t, right in w.right.items():
                r = right & got
                if len(r) >= 2 and not any((s, t) in w.wrong for s in w.images) and w.angle(t, r) > lim:
                    ck.expect(t in have, "extend-missing", what + "point %s is missing" % t)
            rep = json.loads(d.reports["reconstruction.json"])
            rest = sorted(set(d.images()) - got)
            ck.expect(sorted(rep["not_reconstructed_images"]) == rest, "extend-report", what + "not reconstructed: %r instead of %r" % (rep["not_reconstructed_images"], rest))
            steps = [i for st in rep["extend_reconstruction"][0]["grow"]["steps"] for i in st["images"]]
            ck.expect(sorted(steps) == sorted(got - set(first.shots.keys())), "extend-steps", what + repr(steps))
            ck.expect(rep["extend_reconstruction"][0]["num_remaining_images"] == len(rest), "extend-remaining", what + repr(rep["extend_reconstruction"][0]["num_remaining_images"]))
            ck.expect({s: sorted(w.tm.get_shot_observations(s)) for s in w.tm.get_shot_ids()} == tracks, "extend-tracks", what + "the tracks changed")
            ck.outcome((kind, chosen, names))


def do_extend_none(ck):
    for f in (extend_reconstruction, reconstruct_from_prior):
        for names in NAMES:
            w = scene("plain")
            for n in ("reconstruction.json", "prior.json"):
                w.data.save_reconstruction([], n)
            w.data.written = []
            quietly(f.run_dataset, w.data, *names)
            ck.ev()
            ck.expect(w.data.written == [] and not w.data.reports, "empty", "%s %r wrote %r" % (f.__name__, names, w.data.written))
            ck.outcome((f.__name__, names))


def do_bundle(ck, kind, n):
    base = scene(kind)
    some = [c for k in (2, 3, 5) for c in itertools.combinations(insts(base), k)]
    for a, b in itertools.product(range(len(some)), repeat=2) if n == 2 else [(a, 0) for a in range(len(some))]:
        if n == 2 and ((a + 2 * b) % 4 or (ck.quick and (a + b) % 3)) or (n == 1 and ck.quick and a % 2) or (n == 0 and a):
            continue
        names = NAMES[(a + b) % len(NAMES)]
        w = scene(kind)
        d = w.data
        parts = [some[a], some[b]][:n]
        what = "%s, reconstructions of %r, %r: " % (kind, parts, names)
        src, dst = names[0] or "reconstruction.json", names[1] or "reconstruction.json"
        recs = [prior(w, p, 0.02, tag=i) for i, p in enumerate(parts)]
        if any(len(r.points) < 50 for r in recs):
            continue
        d.save_reconstruction([prior(w, insts(w)[:2], 0.5)] * 2, "prior.json" if src == "reconstruction.json" else "reconstruction.json")
        d.save_reconstruction(recs, src)
        before, d.written = dict(d.files), []
        quietly(bundle.run_dataset, d, *names)
        ck.ev()
        ck.expect(d.written == [dst] and {f: v for f, v in d.files.items() if f != dst} == {f: v for f, v in before.items() if f != dst}, "bundle-files", what + "wrote %r" % d.written)
        out = d.load_reconstruction(names[1])
        if not ck.expect([sorted(r.shots.keys()) for r in out] == [sorted(r.shots.keys()) for r in recs] and [sorted(r.points.keys()) for r in out] == [sorted(r.points.keys()) for r in recs],
                         "bundle-content", what + "shots %r instead of %r" % ([sorted(r.shots.keys()) for r in out], [sorted(r.shots.keys()) for r in recs])):
            continue
        for r, old in zip(out, recs):
            ck.expect(r.reference.lat == REF.lat and r.reference.lon == REF.lon and r.reference.alt == REF.alt, "bundle-reference", what)
            ck.expect(sorted(r.cameras.keys()) == sorted(old.cameras.keys()) and sorted(r.rig_instances.keys()) == sorted(old.rig_instances.keys())
                      and sorted(r.rig_cameras.keys()) == sorted(old.rig_cameras.keys()), "bundle-cameras", what)
            for s in r.shots.keys():
                sh, so = r.shots[s], old.shots[s]
                ck.expect(sh.rig_instance_id == so.rig_instance_id and sh.rig_camera_id == so.rig_camera_id and sh.camera.id == so.camera.id
                          and sh.metadata.capture_time.value == 7.0 and np.allclose(sh.metadata.gps_position.value, so.metadata.gps_position.value), "bundle-shot", what + s)
            for t in r.points.keys():
                ck.expect(list(r.points[t].color) == [1, 2, 3], "bundle-colour", what + t)
            if kind == "wrong" or len({w.inst[s] for s in r.shots.keys()}) < 3:
                continue                                # wrong observations, and two positions, leave it open where it ends
            for s in r.shots.keys():
                p, q = r.shots[s].pose, w.pose[s]
                ck.expect(np.linalg.norm(p.get_origin() - q.get_origin()) < 5e-3 and np.abs(p.get_rotation_matrix() - q.get_rotation_matrix()).max() < 2e-3, "bundle-pose",
                          what + "%s is at %r instead of %r" % (s, p.get_origin(), q.get_origin()))
            for t, p in r.points.items():
                ck.expect(np.linalg.norm(p.coordinates - w.X[t]) < 1.5e-2, "bundle-point", what + "%s is at %r instead of %r" % (t, p.coordinates, w.X[t]))
        ck.outcome((kind, n, a, b))


def do_prior(ck, kind, k):
    base = scene(kind)
    for chosen in itertools.combinations(insts(base), k):
        for names in NAMES:
            if ck.quick and names not in (NAMES[0], NAMES[1 + sum(chosen) % 4]):
                continue
            w = scene(kind)
            d = w.data
            what = "%s from %r, %r: " % (kind, chosen, names)
            src, dst = names[0] or "reconstruction.json", names[1] or "reconstruction.json"
            first, decoy = prior(w, chosen, points=sum(chosen) % 2 == 0), prior(w, insts(w)[:2], 0.5)
            for f in ("reconstruction.json", "prior.json"):
                d.save_reconstruction([first, decoy] if f == src else [decoy], f)
            before, d.written = dict(d.files), []
            quietly(reconstruct_from_prior.run_dataset, d, *names)
            ck.ev()
            ck.expect(d.written == [dst] and {f: v for f, v in d.files.items() if f != dst} == {f: v for f, v in before.items() if f != dst}, "prior-files", what + "wrote %r" % d.written)
            recs = d.load_reconstruction(names[1])
            if not ck.expect(len(recs) == 1 and sorted(recs[0].shots.keys()) == sorted(first.shots.keys()), "prior-shots", what + repr([sorted(r.shots.keys()) for r in recs])):
                continue
            rec = recs[0]
            ck.expect(sorted(rec.cameras.keys()) == sorted(first.cameras.keys()) and rec.reference.lat == REF.lat and rec.reference.alt == REF.alt, "prior-cameras", what)
            ids = set(rec.shots.keys())
            for s in ids:
                a, b = rec.shots[s], first.shots[s]
                ck.expect(np.allclose(a.pose.get_world_to_cam(), b.pose.get_world_to_cam(), atol=1e-9) and a.rig_instance_id == b.rig_instance_id and a.rig_camera_id == b.rig_camera_id
                          and a.camera.id == b.camera.id and a.metadata.capture_time.value == 7.0, "prior-pose", what + s)
            lim = np.radians(d.config["triangulation_min_ray_angle"])
            have = set(rec.points.keys())
            for t, right in w.right.items():
                if any((s, t) in w.wrong for s in ids):
                    continue
                ang = w.angle(t, right & ids)
                if len(right & ids) < 2 or ang < lim / 1.2:
                    ck.expect(t not in have, "prior-extra", what + "point %s of %r" % (t, sorted(right & ids)))
                elif ang > 1.2 * lim:
                    ck.expect(t in have, "prior-missing", what + "point %s of %r" % (t, sorted(right & ids)))
                if t in have:
                    ck.expect(np.linalg.norm(rec.points[t].coordinates - w.X[t]) < 1e-3, "prior-point", what + "%s at %r instead of %r" % (t, rec.points[t].coordinates, w.X[t]))
                    q = int(t)
                    ck.expect(tuple(rec.points[t].color) == ((q % 1000 * 3) % 256, q // 1000, 9), "prior-colour", what + "%s has %r" % (t, list(rec.points[t].color)))
            rep = json.loads(d.reports["reconstruction.json"])
            rest = sorted(set(w.tm.get_shot_ids()) - ids)
            ck.expect(sorted(rep["not_reconstructed_images"]) == rest and rep["retriangulate"][0]["num_prior_images"] == len(ids)
                      and rep["retriangulate"][0]["num_remaining_images"] == len(rest), "prior-report", what + repr(rep))
            ck.outcome((kind, chosen, names))


# reports of the steps before --------------------------------------------------------
class Steps(c22.Data):
    def __init__(self, **cfg):
        super().__init__(**cfg)
        self.matches = {}

    def load_matches(self, image):
        return self.matches[image]

    def matches_exists(self, image):
        return image in self.matches

    def save_tracks_manager(self, tm, filename=None):
        self.tm = tm

    def load_report(self, name):
        if name not in self.reports:
            raise IOError(name)
        return self.reports[name]

    def reference_exists(self):
        return True


def do_tracks(ck, n):
    """tracks.json against the tracks that are saved with it"""
    images = ["a", "b", "c", "d"][:n + 1]
    pairs = list(itertools.combinations(images, 2))
    opts = [[], [(0, 0)], [(1, 1)], [(0, 0), (1, 1), (2, 2)]]
    for pick in itertools.product(range(len(opts)), repeat=len(pairs)):
        if len(pairs) > 3 and sum((i + 1) * p for i, p in enumerate(pick)) % (37 if ck.quick else 5):
            continue
        for least in (2, 3):
            d = Steps(min_track_length=least)
            for im in images:
                d.add(im, np.array([[0.1 * i, 0.2, 0.01, 0.0] for i in range(3)]), None)
            for im in images:
                d.matches[im] = {}
            want = {}
            for (x, y), o in zip(pairs, pick):
                if opts[o]:
                    d.matches[x][y] = np.array(opts[o])
            quietly(create_tracks.run_dataset, d)
            ck.ev()
            rep = json.loads(d.reports["tracks.json"])
            table = {}
            for f in range(3):
                groups = []
                for (x, y), o in zip(pairs, pick):
                    if (f, f) in opts[o]:
                        hit = [g for g in groups if x in g or y in g]
                        new = {x, y}.union(*hit)
                        groups = [g for g in groups if g not in hit] + [new]
                for g in groups:
                    if len(g) >= least:
                        table[(f, frozenset(g))] = g
            for g in table.values():
                for x, y in itertools.combinations(sorted(g), 2):
                    want[(x, y)] = want.get((x, y), 0) + 1
            got = {tuple(sorted(v[:2])): v[2] for v in rep["view_graph"] if v[2]}
            what = "%d images, %r, at least %d: " % (len(images), pick, least)
            ck.expect(got == want and len(rep["view_graph"]) == len({tuple(sorted(v[:2])) for v in rep["view_graph"]}), "tracks-graph", what + "%r instead of %r" % (rep["view_graph"], want))
            ck.expect(rep["num_tracks"] == len(table) == d.tm.num_tracks() and rep["num_images"] == len(set().union(*table.values())) , "tracks-count",
                      what + "%r tracks, %r images" % (rep["num_tracks"], rep["num_images"]))
            ck.expect(abs(sum(rep["wall_times"].values()) - rep["wall_time"]) < 1e-9 and all(v >= 0 for v in rep["wall_times"].values()), "tracks-times", what + repr(rep["wall_times"]))
            ck.outcome((n, pick, least))


def do_matches(ck, n):
    """matches.json names the pairs that were matched, whatever came out"""
    rng = np.random.RandomState(5)
    images = ["a", "b", "c", "d"][:n + 1]
    for order, gps in itertools.product((0, 1, 2), (0, 1, 2)):
        d = Steps(matcher_type="BRUTEFORCE", matching_order_neighbors=order, matching_gps_neighbors=gps, matching_gps_distance=0)
        cam = pygeometry.Camera.create_perspective(0.9, 0, 0)
        cam.id, cam.width, cam.height = "cam", 640, 480
        for i, im in enumerate(images):
            d.add(im, np.c_[rng.uniform(-0.4, 0.4, (30, 2)), np.full(30, 0.01), np.zeros(30)], rng.rand(30, 8).astype(np.float32), camera=cam,
                  gps={"latitude": 47.0 + 1e-5 * i * i, "longitude": 8.5, "altitude": 300.0, "dop": 1.0})
        quietly(match_features.run_dataset, d)
        ck.ev()
        rep = json.loads(d.reports["matches.json"])
        y = [i * i for i in range(len(images))]
        want = set()
        if order == gps == 0:
            want = set(itertools.combinations(images, 2))
        for i, a in enumerate(images):
            if order:
                side = (order + 1) // 2                     # half of them on each side
                want |= {tuple(sorted((a, images[j]))) for j in range(max(0, i - side), min(len(images), i + side + 1)) if j != i}
            if gps:
                near = sorted([j for j in range(len(images)) if j != i], key=lambda j: abs(y[i] - y[j]))[:gps]
                want |= {tuple(sorted((a, images[j]))) for j in near}
        got = {tuple(sorted(p)) for p in rep["pairs"]}
        what = "%d images, order %d, gps %d: " % (len(images), order, gps)
        ck.expect(len(got) == len(rep["pairs"]) == rep["num_pairs"] and all(a != b for a, b in got), "matches-pairs", what + repr(rep["pairs"]))
        ck.expect(got == want if not order else want <= got, "matches-selected", what + "%r instead of %r" % (sorted(got), sorted(want)))
        saved = {tuple(sorted((a, b))) for a in d.saved for b in d.saved[a]}
        ck.expect(saved == got and set(d.saved) == set(images), "matches-saved", what + "matches saved for %r of %r" % (sorted(saved), sorted(got)))
        if gps and not order:
            ck.expect(rep["num_pairs_distance"] == len(want), "matches-criteria", what + repr(rep))
        ck.outcome((n, order, gps))


def do_features(ck, n):
    """features.json lists the reports of the images that have one, in the order of the images"""
    for have in itertools.product((0, 1, 2), repeat=n + 1):
        d = Steps()
        images = ["b", "a.jpg", "c", "d"][:n + 1]
        d.images = lambda: list(images)
        from opensfm import features_processing
        keep = features_processing.run_features_processing
        ran = []

        def fake(data, ims, force):
            ran.append((data is d, list(ims), force))
            for im, h in zip(images, have):
                if h == 1:
                    data.save_report(json.dumps({"image": im, "num_features": 3}), "features/%s.json" % im)
        for im, h in zip(images, have):
            if h == 2:
                d.save_report(json.dumps({"image": im, "num_features": 5}), "features/%s.json" % im)
        try:
            features_processing.run_features_processing = fake
            quietly(detect_features.run_dataset, d)
        finally:
            features_processing.run_features_processing = keep
        ck.ev()
        rep = json.loads(d.reports["features.json"])
        ck.expect(ran == [(True, images, False)], "features-run", repr(ran))
        want = [{"image": im, "num_features": 3 if h == 1 else 5} for im, h in zip(images, have) if h]
        ck.expect(rep["image_reports"] == want and rep["wall_time"] >= 0, "features-report", "%r: %r" % (have, rep))
        ck.outcome(have)
