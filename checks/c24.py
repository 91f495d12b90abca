"""C24: rigs are found from file names and calibrated exactly from reconstructed instances."""
import itertools
import json
import math
import os
import re
import shutil

import cv2
import numpy as np
from opensfm import actions, dataset, geo, pygeometry, pymap, rig, types
import opensfm.actions.create_rig as create_rig_action
import opensfm.actions.detect_features
import opensfm.actions.create_tracks
import opensfm.actions.extract_metadata
import opensfm.actions.match_features
import opensfm.actions.reconstruct  # noqa: F401

LEVEL = "exploration"
RULE = ("all ordered selections of file names and patterns of a family; all rigs of a grid of camera layouts x instance poses x missing "
        "shots; all sequences of outcomes of the calibration rounds; non-trivial: distinct inputs")
ASSUMPTIONS = ["patterns are literal texts in parentheses", "every instance in a proposal has a GPS position"]

NAMES = ["1_left.jpg", "1_right.jpg", "2_left.jpg", "2_right.jpg", "2_top.jpg", "left", "3_leftleft.jpg", "a.jpg", "1_.jpg", "right_left.jpg"]
PATS = [("L", "(left)"), ("R", "(right)"), ("T", "(top)"), ("LJ", "(_left)"), ("N", "(zzz)")]


def cases(ck):
    out = [["names", i] for i in range(len(NAMES))]
    out += [["pose", i] for i in range(len(LAYOUTS))]
    out += [["groups", i] for i in range(8)] + [["misc"]]
    out += [["rounds", i] for i in range(6)] + [["propose", n] for n in range(2, 9)] + [["debug", i] for i in range(4)]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


# patterns ------------------------------------------------------------------------
def find(name, pats):
    for cam, pat in pats:
        rest = name.replace(pat[1:-1], "")
        if rest != "" and rest != name:
            return cam, rest
    return None, None


def do_names(ck, first):
    maxp = 3
    for np_ in range(0, maxp + 1):
        for pats in itertools.permutations(PATS, np_):
            got = rig.find_image_rig(NAMES[first], dict(pats))
            ck.expect(got == find(NAMES[first], pats), "find", "%r with %r: %r" % (NAMES[first], pats, got))
            if pats != tuple(sorted(pats)) and np_ == 3 and ck.quick:
                continue
            for k in range(0, 3 if ck.quick else 4):
                for rest in itertools.permutations([n for n in NAMES if n != NAMES[first]], k):
                    images = [NAMES[first]] + list(rest)
                    inst, single = {}, []
                    for im in images:
                        cam, key = find(im, pats)
                        if cam is None:
                            single.append(im)
                        else:
                            inst.setdefault(key, []).append((im, cam))
                    gi, gs = rig.create_instances_with_patterns(list(images), dict(pats))
                    ck.ev()
                    ck.outcome((images, pats))
                    ck.expect({k: [tuple(x) for x in v] for k, v in gi.items()} == inst and gs == single, "instances",
                              "images %r, patterns %r: %r, single %r instead of %r, %r" % (images, pats, gi, gs, inst, single))
                    groups = {}
                    for v in inst.values():
                        groups.setdefault(frozenset(c for _, c in v), []).append([x[0] for x in v])
                    gg = rig.group_instances(gi)
                    got = {frozenset(c for _, c in v[0]): [[x[0] for x in i] for i in v] for v in gg.values()}
                    ck.expect(got == groups and len(gg) == len(groups), "groups", "groups of %r are %r" % (inst, gg))
                    per = rig.rig_assignments_per_image(gi)
                    want = {im: (key, cam, [x[0] for x in v]) for key, v in inst.items() for im, cam in v}
                    ck.expect({k: (a, b, list(c)) for k, (a, b, c) in per.items()} == want, "per-image", "assignments per image of %r are %r" % (inst, per))


# calibration -----------------------------------------------------------------------
def axis(a, x, y, z):
    v = np.array([x, y, z], float)
    v = v / np.linalg.norm(v)
    a = math.radians(a)
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * K @ K


def ring(n):
    return [(axis(360.0 * k / n, 0, 1, 0), axis(-360.0 * k / n, 0, 1, 0) @ np.array([0, 0, 0.2])) for k in range(n)]


LAYOUTS = [ring(1), ring(2), ring(3), ring(4), [(np.eye(3), np.zeros(3)), (np.eye(3), np.array([0.5, 0, 0]))],
           [(axis(20, 1, 0.2, 0), np.array([0.1, 0.2, -0.3])), (axis(-130, 0.3, 1, 0.5), np.array([-1, 0.4, 0.2])), (axis(75, 0, 0, 1), np.array([0, 0, 2.0]))],
           ring(6), [(axis(179.9, 0, 1, 0), np.zeros(3)), (axis(-179.9, 0, 1, 0), np.array([0, 1.0, 0]))]]
WORLD = [(axis(a, *ax), np.array(o, float)) for a, ax, o in
         [(0, (0, 0, 1), (0, 0, 0)), (90, (1, 0, 0), (5, -3, 1)), (120, (1, 0.4, 0.2), (100, 40, 2)), (180, (0, 0, 1), (0, 9, 0)), (-175, (0.2, 1, 0.1), (-7, 2, 30)), (60, (0, 1, 1), (1, 1, 1))]]


def mkpose(R, o):
    p = pygeometry.Pose()
    p.set_rotation_matrix(R)
    p.set_origin(np.asarray(o, float))
    return p


def rec_of(layout, worlds, missing=(), prefix="", cams=None):
    """a reconstruction with one shot per camera and instance; rotation R_cam R_world, origin in world"""
    rec = types.Reconstruction()
    c = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
    c.id = "cam"
    rec.add_camera(c)
    inst = {}
    for w, (Rw, ow) in enumerate(worlds):
        v = []
        for k, (Rc, oc) in enumerate(layout):
            sid = "%s%d_%d" % (prefix, w, k)
            v.append((sid, (cams or {}).get(k, "rc%d" % k)))
            if (w, k) in missing:
                continue
            rec.create_shot(sid, "cam", mkpose(Rc @ Rw, ow + Rw.T @ oc))
        inst["%si%d" % (prefix, w)] = v
    return rec, inst


def same_rig(ck, got, layout, ids, key, what):
    """the rig cameras are the layout, up to the choice of the rig's frame"""
    if not ck.expect(set(got) == set(ids), key + "-ids", "%s: rig cameras %r instead of %r" % (what, sorted(got), sorted(ids))) or not ids:
        return
    R = [got[i].pose.get_rotation_matrix() for i in ids]
    o = [got[i].pose.get_origin() for i in ids]
    F = layout[0][0].T @ R[0]  # from the found frame to the frame of the layout
    t = layout[0][1] - F @ o[0]
    for i, (Rc, oc), Rg, og in zip(ids, layout, R, o):
        ck.expect(np.allclose(Rg, Rc @ F, atol=1e-6) and np.allclose(F @ og + t, oc, atol=1e-6), key,
                  "%s: camera %s is at %r\n%r\ninstead of %r\n%r" % (what, i, (F @ og + t).tolist(), (Rg @ F.T).tolist(), oc.tolist(), Rc.tolist()))
        ck.expect(got[i].id == i, key + "-id", "%s: rig camera %r has id %r" % (what, i, got[i].id))


def do_pose(ck, li):
    layout = LAYOUTS[li]
    ids = ["rc%d" % k for k in range(len(layout))]
    for n in range(1, 4):
        for ws in itertools.combinations(range(len(WORLD)), n):
            rec, inst = rec_of(layout, [WORLD[w] for w in ws])
            for order in (0, 1, 2):
                d = dict(reversed(list(inst.items()))) if order == 1 else inst
                d = {k: list(reversed(v)) for k, v in d.items()} if order == 2 else d
                what = "layout %d, instances at %r, order %d" % (li, ws, order)
                ck.ev()
                ck.outcome((li, ws, order))
                got = rig.compute_relative_pose([[(rec.shots[s], c) for s, c in v] for v in d.values()])
                same_rig(ck, got, layout, ids, "relative", what)
                got = rig.create_rig_cameras_from_reconstruction(rec, d)
                same_rig(ck, got, layout, ids, "calibration", what)
            for missing in [m for k in range(1, n + 1) for m in itertools.combinations([(w, w % len(layout)) for w in range(n)], k)]:
                rec, inst = rec_of(layout, [WORLD[w] for w in ws], missing)
                got = rig.create_rig_cameras_from_reconstruction(rec, inst)
                ck.ev()
                same_rig(ck, got, layout, ids if len(missing) < n else [], "incomplete", "layout %d, instances at %r, missing %r" % (li, ws, missing))
    # small errors average out: the mean of +d and -d is the truth
    d = 1e-3
    rec, _ = rec_of(layout, [])
    groups = []
    for w, s in ((1, 1), (1, -1), (2, 1), (2, -1)):
        Rw, ow = WORLD[w]
        g = []
        for k, (Rc, oc) in enumerate(layout):
            Rk = axis(math.degrees(s * d), 0, 0, 1) @ Rc if k else Rc
            sid = "e%d_%d_%d" % (w, s, k)
            g.append((rec.create_shot(sid, "cam", mkpose(Rk @ Rw, ow + Rw.T @ oc)), "rc%d" % k))
        groups.append(g)
    got = rig.compute_relative_pose(groups)
    same_rig(ck, got, layout, ids, "average", "layout %d with errors that cancel" % li)


def do_groups(ck, i):
    """a camera that is in two groups keeps the pose of the group with more instances"""
    A, B = LAYOUTS[2], LAYOUTS[5][:2]
    na, nb = 1 + (i & 1) * 2, 2
    for swap in (0, 1):
        ra, ia = rec_of(A, [WORLD[w] for w in range(na)], prefix="a")
        inst = dict(ia)
        shared = {0: "rc0", 1: "other"} if i & 2 else {0: "x0", 1: "x1"}
        for w in range(nb):
            Rw, ow = WORLD[w + 1]
            v = []
            for k, (Rc, oc) in enumerate(B):
                sid = "b%d_%d" % (w, k)
                ra.create_shot(sid, "cam", mkpose(Rc @ Rw, ow + Rw.T @ oc))
                v.append((sid, shared[k]))
            inst["b%d" % w] = v
        if i & 4:
            ra.create_shot("stranger", "cam", mkpose(np.eye(3), np.zeros(3)))
        if swap:
            inst = dict(reversed(list(inst.items())))
        got = rig.create_rig_cameras_from_reconstruction(ra, inst)
        ck.ev()
        ck.outcome((i, swap))
        what = "groups of %d and %d instances, camera ids %r" % (na, nb, shared)
        ids = {"rc0", "rc1", "rc2"} | set(shared.values())
        ck.expect(set(got) == ids, "two-groups", "%s: rig cameras %r" % (what, sorted(got)))
        if not i & 2:
            same_rig(ck, {k: v for k, v in got.items() if k.startswith("rc")}, A, ["rc0", "rc1", "rc2"], "two-groups", what)
            same_rig(ck, {k: v for k, v in got.items() if k.startswith("x")}, B, ["x0", "x1"], "two-groups", what)
        elif na > nb:
            same_rig(ck, {k: v for k, v in got.items() if k.startswith("rc")}, A, ["rc0", "rc1", "rc2"], "two-groups", what)
        else:
            same_rig(ck, {k: got[k] for k in ("rc0", "other")}, B, ["rc0", "other"], "two-groups", what)


def do_misc(ck):
    """instances whose shots are all reconstructed are counted"""
    for n in range(4):
        got = rig.default_rig_cameras(["C %d" % k for k in range(n)])
        ck.expect(set(got) == {"C %d" % k for k in range(n)} and all(v.id == k and np.allclose(v.pose.get_Rt(), np.eye(4)[:3]) for k, v in got.items()), "default", "default rig cameras %r" % got)
    for sizes in itertools.product((1, 2, 3), repeat=3):
        inst = [[("%d_%d" % (i, k), "c%d" % k) for k in range(n)] for i, n in enumerate(sizes)]
        shots = [s for v in inst for s, _ in v]
        for mask in range(2 ** len(shots)):
            rec = types.Reconstruction()
            c = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
            c.id = "cam"
            rec.add_camera(c)
            have = {s for i, s in enumerate(shots) if mask >> i & 1}
            for s in have:
                rec.create_shot(s, "cam")
            got = rig.count_reconstructed_instances(inst, rec)
            want = sum(1 for v in inst if all(s in have for s, _ in v))
            ck.ev()
            ck.outcome((sizes, mask))
            ck.expect(got == want, "count", "instances %r with shots %r: %r reconstructed instead of %r" % (inst, sorted(have), got, want))


# the whole command -----------------------------------------------------------------
def mkdata(path, n, gps=lambda i: (47.0 + 1e-4 * i, 8.5), cams=2, extra=True, other=False, compl=0.6):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(os.path.join(path, "images"))
    with open(os.path.join(path, "config.yaml"), "w") as f:
        f.write("rig_calibration_subset_size: 4\nrig_calibration_max_rounds: 5\nrig_calibration_completeness: %g\n" % compl)
    names = ["%02d_%s.png" % (i, c) for i in range(n) for c in ("left", "right")[:cams]] + (["alone.png"] if extra else []) + (["%02dz_cx.png" % i for i in range(n)] if other else [])
    for im in names:
        cv2.imwrite(os.path.join(path, "images", im), np.zeros((2, 2, 3), np.uint8))
    data = dataset.DataSet(path)
    cam = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
    cam.id, cam.width, cam.height = "cam", 640, 480
    data.save_camera_models({"cam": cam})
    for im in names:
        i = int(im[:2]) if im[0].isdigit() else 0
        la, lo = gps(i)
        data.save_exif(im, {"camera": "cam", "width": 640, "height": 480, "make": "", "model": "", "projection_type": "perspective", "focal_ratio": 0.8,
                            "orientation": 1, "capture_time": 1000.0 + 7 * (i * 5 % 17), "gps": {"latitude": la, "longitude": lo, "altitude": 0.0, "dop": 5.0}})
    return data


class Stubs:
    """the stages of the calibration, replaced by ones that give a chosen outcome in each round"""

    def __init__(self, outcomes, layout, cams, completeness):
        self.outcomes, self.layout, self.round, self.seen = outcomes, layout, 0, []
        self.cams, self.completeness, self.ok = cams, completeness, []

    def __enter__(self):
        self.mods = [getattr(actions, m) for m in ("extract_metadata", "detect_features", "match_features", "create_tracks", "reconstruct")]
        self.old = [m.run_dataset for m in self.mods]
        self.log = []
        for m in self.mods[:-1]:
            m.run_dataset = lambda data, *a, _n=m.__name__.split(".")[-1], **k: self.log.append((_n, tuple(sorted(data.images()))))
        self.mods[-1].run_dataset = self.reconstruct
        return self

    def __exit__(self, *a):
        for m, o in zip(self.mods, self.old):
            m.run_dataset = o

    def reconstruct(self, data, *a, **k):
        kind = self.outcomes[self.round] if self.round < len(self.outcomes) else "none"
        self.seen.append(sorted(data.images()))
        self.log.append(("reconstruct", tuple(sorted(data.images()))))
        images = sorted(data.images())
        rec = types.Reconstruction()
        c = pygeometry.Camera.create_perspective(0.8, 0.0, 0.0)
        c.id = "cam"
        rec.add_camera(c)
        keys = sorted({instance(im) for im in images})
        if kind == "half":  # one side of the rig only
            images = [im for im in images if "left" in im]
        if kind == "few":  # one instance only
            images = [im for im in images if instance(im) in (keys[0], keys[-1])]
        if kind == "some":  # every second instance
            images = [im for im in images if instance(im) in keys[::2] or "cx" in im]
        if kind == "nox":  # nothing of the other rig
            images = [im for im in images if "cx" not in im]
        full = [k for k in keys if all(x in images for x in self.seen[-1] if instance(x) == k)]
        cams = {re.sub("[^a-z]", "", im.split("_")[1][:-4]) for k in full for im in images if instance(im) == k}
        self.ok.append(kind != "none" and cams == self.cams and len(full) >= self.completeness * len(keys) - 1e-9)
        for im in images:
            w, cam = int(im[:2]), 0 if "right" not in im else 1
            Rw, ow = WORLD[w % len(WORLD)]
            Rc, oc = self.layout[cam]
            rec.create_shot(im, "cam", mkpose(Rc @ Rw, ow + Rw.T @ (oc * (1 + self.round))))
        self.round += 1
        rest = types.Reconstruction()   # another part, with a shot of its own
        rest.add_camera(c)
        if images:
            rest.create_shot(images[0], "cam", mkpose(*self.layout[1]))
        data.save_reconstruction([] if kind == "none" else [rec, rest])


def instance(im):
    """the instance an image is of: its name without the side"""
    return re.sub("left|right|cx", "", im)


def do_rounds(ck, i):
    kinds = ["none", "half", "few", "good", "some", "nox"]
    path = os.path.join(ck.scratch, "rounds")
    for rest in itertools.product(kinds, repeat=2 if ck.quick else 3):
        seq = (kinds[i],) + rest
        other = "nox" in seq or i == 4      # a second rig, of one camera
        compl = 0.5 if "some" in seq else 0.6
        data = mkdata(path, 6, other=other, compl=compl)
        patterns = {"L": "(left)", "R": "(right)"}
        if other:
            patterns["X"] = "(cx)"
        with Stubs(seq, LAYOUTS[1], {"left", "right"} | ({"cx"} if other else set()), compl) as st:
            create_rig_action.run_dataset(data, "pattern", patterns, bool(i & 1) and "good" in seq)
        good = True in st.ok
        what = "rounds %r, second rig %r" % (seq, other)
        stages = ["extract_metadata", "detect_features", "match_features", "create_tracks", "reconstruct"]
        ck.expect(st.log == [(s, tuple(im)) for im in st.seen for s in stages], "rounds-stages", "%s: stages %r" % (what, [s for s, _ in st.log]))
        dbg = os.path.exists(os.path.join(path, "rig_instances.json"))
        ck.expect(dbg == (bool(i & 1) and "good" in seq), "rounds-debug", "%s: reconstruction for inspection %s" % (what, dbg))
        if dbg:
            r = data.load_reconstruction("rig_instances.json")
            ck.expect({s for x in r for s in x.shots} == {s for v in data.load_rig_assignments().values() for s, _ in v}, "rounds-debug", "%s: shots of the reconstruction for inspection" % what)
        ck.ev()
        ck.outcome(seq)
        done = os.path.exists(os.path.join(path, "rig_cameras.json"))
        ck.expect(done == good, "rounds", "%s: rig cameras %s" % (what, "saved" if done else "not saved"))
        ck.expect(os.path.exists(os.path.join(path, "rig_assignments.json")) == done, "rounds", "%s: assignments" % what)
        if done and good:
            k = st.ok.index(True)
            ck.expect(st.round == k + 1, "rounds-stop", "%s: %d rounds were run" % (what, st.round))
            cams = data.load_rig_cameras()
            ck.expect(set(patterns) <= set(cams), "rounds-cameras", "%s: rig cameras %r" % (what, sorted(cams)))
            same_rig(ck, {c: v for c, v in cams.items() if c in "LR"}, [(R, o * (1 + k)) for R, o in LAYOUTS[1]], ["L", "R"], "rounds-cameras", what)
            want = {"%02d_.png" % j: [["%02d_left.png" % j, "L"], ["%02d_right.png" % j, "R"]] for j in range(6)}
            if other:
                want.update({"%02dz_.png" % j: [["%02dz_cx.png" % j, "X"]] for j in range(6)})
            got = {k2: [list(x) for x in sorted(v)] for k2, v in data.load_rig_assignments().items()}
            ck.expect(got == want, "rounds-assignments", "%s: assignments %r" % (what, got))
        ck.expect(sorted(dataset.DataSet(path).images()) == sorted(data.images()), "rounds-images", "%s: the dataset has other images" % what)


def do_propose(ck, n):
    """proposals: whole instances, of the biggest connected group, with a dataset of exactly their images"""
    path = os.path.join(ck.scratch, "prop")
    data = mkdata(path, n)
    inst, _ = rig.create_instances_with_patterns(data.images(), {"L": "(left)", "R": "(right)"})
    seen = set()
    gen = rig.propose_subset_dataset_from_instances(data, inst, "calib")
    for k in range(12):
        sub, instances = next(gen)
        imgs = sorted(s for v in instances for s, _ in v)
        what = "%d instances, proposal %d" % (n, k)
        ck.ev()
        ck.outcome((n, tuple(imgs)))
        ck.expect(sorted(sub.images()) == imgs, "propose-images", "%s: images %r of instances %r" % (what, sorted(sub.images()), instances))
        ck.expect(all(v in inst.values() for v in instances) and len(imgs) == len(set(imgs)), "propose-instances", "%s: %r" % (what, instances))
        ck.expect(0 < len(instances) <= 4, "propose-size", "%s: %d instances" % (what, len(instances)))
        order = sorted(range(n), key=lambda j: j * 5 % 17)
        idx = sorted(order.index(int(v[0][0][:2])) for v in instances)
        ck.expect(idx == list(range(idx[0], idx[0] + len(idx))), "propose-consecutive", "%s: instances %r are not consecutive in time" % (what, idx))
        seen.update(imgs)
    # two places far from each other: the one with more instances
    for big in (7, 8):
        m = 15
        data = mkdata(path, m, gps=lambda j: (47.0 + 1e-5 * j + (0.5 if (j >= big) == (n % 2 == 0) else 0.0), 8.5))
        inst, _ = rig.create_instances_with_patterns(data.images(), {"L": "(left)", "R": "(right)"})
        gen = rig.propose_subset_dataset_from_instances(data, inst, "calib")
        best = range(big) if big > m - big else range(big, m)
        for k in range(4):
            sub, instances = next(gen)
            idx = sorted(int(v[0][0][:2]) for v in instances)
            ck.ev()
            ck.outcome((n, big, k, tuple(idx)))
            ck.expect(idx and set(idx) <= set(best), "propose-place", "%d instances in one place and %d in another: proposal of %r" % (big, m - big, idx))


def do_debug(ck, i):
    """the reconstruction written for inspection has every assigned shot in its rig"""
    path = os.path.join(ck.scratch, "dbg")
    n = 1 + i
    data = mkdata(path, n)
    data.save_rig_cameras({c: pymap.RigCamera(mkpose(*LAYOUTS[5][k]), c) for k, c in enumerate(("L", "R"))})
    inst, _ = rig.create_instances_with_patterns(data.images(), {"L": "(left)", "R": "(right)"})
    data.save_rig_assignments(inst)
    recs = create_rig_action._reconstruction_from_rigs_and_assignments(data)
    ck.ev()
    ck.outcome(i)
    ref = data.load_reference()
    want = {s: (k, c) for k, v in inst.items() for s, c in v}
    got = {s.id: (s.rig_instance_id, s.rig_camera_id) for r in recs for s in r.shots.values()}
    ck.expect(len(recs) == 1 and got == want, "debug", "shots %r instead of %r" % (got, want))
    for s in recs[0].shots.values():
        e = data.load_exif(s.id)["gps"]
        p = ref.to_topocentric(e["latitude"], e["longitude"], 0)
        o = s.rig_instance.pose.get_origin()
        ck.expect(s.metadata.capture_time.value == data.load_exif(s.id)["capture_time"] and np.allclose(s.metadata.gps_position.value[:2], p[:2], atol=1e-6), "debug-metadata", "metadata of %s" % s.id)
        ck.expect(np.allclose(o[:2], p[:2], atol=1e-6), "debug-origin", "instance of %s at %r, its GPS at %r" % (s.id, o.tolist(), p))
        c, oc = LAYOUTS[5][0 if s.rig_camera_id == "L" else 1]
        ck.expect(np.allclose(s.pose.get_rotation_matrix(), c @ s.rig_instance.pose.get_rotation_matrix(), atol=1e-9), "debug-pose", "pose of %s" % s.id)
