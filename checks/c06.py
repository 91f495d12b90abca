"""C06: a reconstruction written and read back is the same reconstruction; earlier formats are read."""
import itertools
import json
import os
import shutil

import numpy as np
from opensfm import dataset, geo, io, pygeometry, pymap, types
import c13
import scene

LEVEL = "exploration"
RULE = ("all combinations of scene parts (rigs, panoramas, unused parts, equal ids), of metadata fields (absent, zero, value), of "
        "camera models and parameters and of ids and numbers at their limits, written and read through the dataset in both layouts; "
        "non-trivial: distinct files")
ASSUMPTIONS = ["numbers are finite"]

PARTS = ["bias", "rig", "rig2", "unused", "pano", "panorig", "points", "ref", "nopose"]
META = {"orientation": (0, 6), "capture_time": (0.0, 1234567890.123), "gps_accuracy": (0.0, 4.25), "gps_position": ((0, 0, 0), (1.5, -2e5, 3.25)),
        "gravity_down": ((0, 0, 0), (0.1, 0.9, -0.3)), "compass_angle": (0.0, 271.5), "compass_accuracy": (0.0, 12.0), "sequence_key": ("", "a/b \u00e9\"")}
IDS = ["im.jpg", "with space.JPG", "d/e.png", "\u00fc\u4e2d\U0001F600", "a\"b\\c", "0", "None", "a" * 300, " ", "panoshot_x", "{}", "\u00a0\t"]
NUMS = [0.0, -0.0, 1.0, -1.5, 1e-300, 1e300, 123456789.123456789, 0.1 + 0.2, 5e-324, -7.0]


def cases(ck):
    out = [["parts", i] for i in range(2 ** len(PARTS))]
    out += [["meta", i] for i in range(3 ** 4)]
    out += [["camera", t] for t in c13.NK] + [["equi", 0]]
    out += [["names", i] for i in range(len(IDS))]
    out += [["numbers", i] for i in range(len(NUMS))]
    out += [["shotinfo", i] for i in range(2 ** 4)] + [["several", n] for n in range(4)]
    out += [["legacy", i] for i in range(2 ** 4)]
    return out


def setup(ck):
    pass


def check(ck, case):
    globals()[case[0]](ck, case[1])


def through(ck, recs, what):
    """both layouts of the file, through the dataset; and each again"""
    d = os.path.join(ck.scratch, "ds")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "images"))
    open(os.path.join(d, "images", "x.jpg"), "w").close()
    data = dataset.DataSet(d)
    for minify, name in ((False, None), (True, "reconstruction.other.json")):
        data.save_reconstruction(recs, name, minify)
        raw = open(os.path.join(d, name or "reconstruction.json"), encoding="utf-8").read()
        ck.ev()
        ck.outcome(raw)
        got = data.load_reconstruction(name)
        yield "%s%s" % (what, " minified" if minify else ""), got
        if minify:
            ck.expect("\n" not in raw, "minify", "%s: a minified file has %d lines" % (what, raw.count("\n") + 1))
        json.loads(raw)
        data.save_reconstruction(got, "again.json")
        yield what + " twice", data.load_reconstruction("again.json")


def view(rec):
    bad = []
    o = scene.observe(rec, bad)
    pts = tuple(p[:3] for p in o[5])
    ref = rec.reference
    return o[:5] + (pts, (ref.lat, ref.lon, ref.alt)), bad


def compare(ck, recs, key, what):
    want = [view(r)[0] for r in recs]
    for w, got in through(ck, recs, what):
        ck.expect(len(got) == len(recs), key, "%s: %d reconstructions instead of %d" % (w, len(got), len(recs)))
        for g, x in zip(got, want):
            v, bad = view(g)
            names = ("cameras", "biases", "rig cameras", "rig instances", "shots", "points", "reference")
            for n, a, b in zip(names, v, x):
                ck.expect(a == b, "%s:%s" % (key, n), "%s: %s are\n%r instead of\n%r" % (w, n, a, b))
            ck.expect(not bad, key + ":inconsistent", "%s: %s" % (w, bad[:2]))


def parts(ck, i):
    on = {p for j, p in enumerate(PARTS) if i >> j & 1}
    m, rec = None, types.Reconstruction()
    rec.add_camera(scene.mk_camera(0))
    rec.add_camera(scene.mk_camera(1))
    ops = [("create_shot", "s9", "c1", None, None, None if "nopose" in on else "q")]
    if "rig" in on:
        ops = [("rig_camera", "rcA", "p"), ("rig_instance", "ri"), ("create_shot", "s0", "c0", "rcA", "ri", "q")] + ops
    if "rig2" in on:
        ops += [("rig_camera", "rcB", "r"), ("rig_camera", "rc0", "id"), ("rig_instance", "rj"), ("create_shot", "s1", "c0", "rcB", "rj", None),
                ("create_shot", "s2", "c1", "rc0", "rj", None), ("set_inst_pose", "rj", "p")]
    if "unused" in on:
        ops += [("rig_camera", "lone", "q"), ("rig_instance", "empty")]
    if "pano" in on:
        ops += [("create_pano", "x0", "c0", "p"), ("create_pano", "x1", "c0", "q")]
    if "panorig" in on:  # a panorama with the id of a shot
        ops += [("create_pano", "s9", "c1", "r")] + ([("create_pano", "s0", "c0", "p")] if "rig" in on else [])
    if "points" in on:
        ops += [("create_point", "7", (1, 2, 3)), ("create_point", "x", (-0.125, 1e6, 0)), ("color", "7", (1, 128, 255)), ("color", "x", (0, 0, 0))]
    if "bias" in on:
        ops += [("set_bias", "c1", "b")]
    for op in ops:
        scene.real(rec, op)
    if "ref" in on:
        rec.reference = geo.TopocentricConverter(47.1, -8.5, 301.25)
    for k in ("s9",):
        rec.shots[k].metadata.capture_time.value = 17.5
    compare(ck, [rec], "parts", "+".join(sorted(on)))
    if i == 5:
        ck.sample(sorted(on))


def meta(ck, i):
    """every field absent, zero or set, in all combinations of four (two groups) and pairwise across groups"""
    ch = [i // 3 ** j % 3 for j in range(4)]
    keys = list(META)
    for other in ([0] * 4, [1] * 4, [2] * 4, ch, ch[::-1], [2, 0, 1, 2], [0, 2, 2, 1]):
        for a, b in ((ch, other), (other, ch)):
            vals = {k: META[k][c - 1] for k, c in zip(keys, list(a) + list(b)) if c}
            rec = types.Reconstruction()
            rec.add_camera(scene.mk_camera(0))
            for n, make in enumerate((rec.create_shot, rec.create_pano_shot)):
                sh = make("s%d" % n, "c0")
                for k, v in vals.items():
                    getattr(sh.metadata, k).value = np.array(v, float) if isinstance(v, tuple) else v
            for w, got in through(ck, [rec], "metadata %r" % (vals,)):
                for sh in list(got[0].shots.values()) + list(got[0].pano_shots.values()):
                    for k in keys:
                        mm = getattr(sh.metadata, k)
                        have = (tuple(map(float, mm.value)) if isinstance(META[k][0], tuple) else mm.value) if mm.has_value else None
                        want = vals.get(k)
                        if isinstance(want, tuple):
                            want = tuple(map(float, want))
                        ck.expect(have == want, "meta:" + k, "%s: %s of %s is %r" % (w, k, sh.id, have))


def cam_state(c):
    return (c.id, c.width, c.height, c.projection_type, [float(v) for v in c.get_parameters_values()])


def close(a, b):
    return a[:4] == b[:4] and np.allclose(a[4], b[4], rtol=1e-14, atol=1e-300)


def camera(ck, t):
    for f, ar, pp, k, tr in c13.params(t, ck.quick):
        cam = c13.make(t, f, ar, pp, k, tr)
        cam.id, cam.width, cam.height = "v2 make model 640 480 %s 0.85" % t, 640, 481
        s = cam_state(cam)
        js = json.loads(io.json_dumps(io.cameras_to_json({cam.id: cam})))
        ck.ev()
        ck.outcome((t, f, ar, pp, k, tr))
        got = io.cameras_from_json(js)
        ck.expect(set(got) == {cam.id} and close(cam_state(got[cam.id]), s), "camera:json", "%r reads %r" % (s, [cam_state(c) for c in got.values()]))
        v = io.camera_to_vector(cam)
        c2 = io.camera_from_vector(cam.id, cam.width, cam.height, t, [float(x) for x in v])
        ck.expect(close(cam_state(c2), s), "camera:vector", "%r by its vector %r is %r" % (s, v, cam_state(c2)))
        if not any(k):
            for x in list(js[cam.id]):
                if x[0] in "kps" and x[1:].isdigit():
                    del js[cam.id][x]
            ck.expect(close(cam_state(io.cameras_from_json(js)[cam.id]), s), "camera:defaults", "%s without its zero distortion" % t)
    rec = types.Reconstruction()
    rec.add_camera(cam)
    rec.create_shot("a", cam.id)
    for w, got in through(ck, [rec], "camera %s" % t):
        c = got[0].cameras[cam.id]
        ck.expect(close(cam_state(c), s), "camera:file", "%s: %r instead of %r" % (w, cam_state(c), s))


def equi(ck, _):
    for pt in ("equirectangular", "spherical"):
        c = io.camera_from_json("x", {"projection_type": pt, "width": 10, "height": 5})
        ck.ev()
        ck.expect(pygeometry.Camera.is_panorama(c.projection_type) and (c.width, c.height, c.id) == (10, 5, "x"), "equirectangular", pt)
        c = io.camera_from_vector("x", 10, 5, pt, [])
        ck.expect(pygeometry.Camera.is_panorama(c.projection_type) and (c.width, c.height, c.id) == (10, 5, "x"), "equirectangular", pt)
    c = io.camera_from_json("x", {"focal": 0.5})
    ck.expect(c.projection_type == "perspective" and (c.focal, c.k1, c.k2, c.width, c.height) == (0.5, 0, 0, 0, 0), "camera:default", repr(cam_state(c)))
    for bad in ({"projection_type": "pinhole", "focal": 1},):
        try:
            io.camera_from_json("x", bad)
            ck.fail("camera:unknown", "an unknown projection is read as a camera")
        except NotImplementedError:
            pass


def names(ck, i):
    n = IDS[i]
    for m in (IDS[(i + 1) % len(IDS)], "plain"):  # noqa: B007
        rec = types.Reconstruction()
        c = scene.mk_camera(0)
        c.id = n + "c"
        rec.add_camera(c)
        rec.add_rig_camera(pymap.RigCamera(scene.mk_pose("p"), n + "rc"))
        rec.add_rig_instance(pymap.RigInstance(m + "i"))
        rec.create_shot(n, c.id, scene.mk_pose("q"), n + "rc", m + "i")
        rec.create_shot(m, c.id, scene.mk_pose("r"), n + "rc", None)
        rec.create_pano_shot(n + "p", c.id, scene.mk_pose("q"))
        rec.create_point(n, np.array([1.0, 2, 3]))
        rec.set_bias(c.id, scene.mk_bias("b"))
        compare(ck, [rec], "names", "ids %r" % n)


def numbers(ck, i):
    a = NUMS[i]
    for b, k in zip(NUMS, (2.5, 1e-4, 1e-9, 1e6, 0.3, 7.0, 1.0, 0.9999, 123.5, 1e-2)):
        rec = types.Reconstruction()
        rec.add_camera(scene.mk_camera(0))
        p = rec.create_point("p", np.array([a, b, 1.0]))
        p.color = np.array([min(abs(a) % 256, 255), 3, 4]).astype(int)
        t = [a if abs(a) < 1e6 else 7.0, b if abs(b) < 1e6 else 3.0, 1.0]
        rec.create_shot("s", "c0", pygeometry.Pose(np.array([0.1, -0.2, 0.3]), np.array(t)))
        rec.shots["s"].scale = a
        rec.shots["s"].merge_cc = 5
        rec.set_bias("c0", pygeometry.Similarity(np.array([0.0, 0.1, -0.2]), np.array([t[1], 1.0, t[0]]), k))
        rec.reference = geo.TopocentricConverter(12.5, -100.25, b if abs(b) < 1e9 else 0)
        for w, got in through(ck, [rec], "numbers %r %r" % (a, b)):
            g = got[0]
            ck.expect(list(g.points["p"].coordinates) == [a, b, 1.0] and list(g.points["p"].color) == list(p.color), "numbers:point", "%s: %r %r" % (w, g.points["p"].coordinates, g.points["p"].color))
            ck.expect(g.shots["s"].scale == a and g.shots["s"].merge_cc == 5, "numbers:shot", "%s: scale %r" % (w, g.shots["s"].scale))
            ck.expect(np.allclose(g.shots["s"].pose.translation, t, rtol=1e-14, atol=1e-12), "numbers:pose", "%s: %r" % (w, g.shots["s"].pose.translation))
            x, y = g.biases["c0"], rec.biases["c0"]
            ck.expect(np.allclose(x.translation, y.translation, rtol=1e-14) and np.allclose(x.rotation, y.rotation, atol=1e-12) and x.scale == k, "numbers:bias", "%s: %r %r %r" % (w, x.translation, x.rotation, x.scale))
            r = g.reference
            ck.expect((r.lat, r.lon, r.alt) == (12.5, -100.25, rec.reference.alt), "numbers:reference", "%s: %r" % (w, (r.lat, r.lon, r.alt)))


def shotinfo(ck, i):
    rec = types.Reconstruction()
    rec.add_camera(scene.mk_camera(0))
    cov = np.arange(36, dtype=float).reshape(6, 6) / 7
    V, F = [[0.0, 0.5, 1.0], [1.0, 2.0, 3.25], [4, 5, 6]], [] if i & 4 else [[0, 1, 2], [2, 1, 0]]  # also vertices without faces
    for n, make in enumerate((rec.create_shot, rec.create_pano_shot)):
        sh = make("s%d" % n, "c0", scene.mk_pose("p"))
        if i & 1:
            sh.scale = 2.25
        if i & 2:
            sh.covariance = cov
        if i & 4:
            sh.merge_cc = 3 - 4 * n
        if i & 8:
            sh.mesh.vertices, sh.mesh.faces = V, F
    ref = {s.id: (s.scale, s.covariance.tolist(), s.merge_cc) for s in list(rec.shots.values()) + list(rec.pano_shots.values())}
    for w, got in through(ck, [rec], "shot information %d" % i):
        for s in list(got[0].shots.values()) + list(got[0].pano_shots.values()):
            ck.expect((s.scale, s.covariance.tolist(), s.merge_cc) == ref[s.id], "shotinfo", "%s: %s has %r instead of %r" % (w, s.id, (s.scale, s.covariance.tolist(), s.merge_cc), ref[s.id]))
            mesh = [list(map(float, v)) for v in s.mesh.vertices], [list(map(int, v)) for v in s.mesh.faces]
            ck.expect(mesh == ((V, F) if i & 8 else ([], [])), "mesh", "%s: mesh of %s %r" % (w, s.id, mesh))


def several(ck, n):
    recs = []
    for j in range(n):
        rec = types.Reconstruction()
        for q in range(j):
            rec.add_camera(scene.mk_camera(q))
            rec.create_shot("s%d" % q, "c%d" % q, scene.mk_pose("pqr"[j % 3]))
        rec.create_point(str(j))
        rec.reference = geo.TopocentricConverter(j + 1, 2 * j, 3 * j)
        recs.append(rec)
    compare(ck, recs, "several", "%d reconstructions" % n)


def legacy(ck, i):
    """files of earlier versions: no biases, no rigs, no translation, no reference"""
    obj = {"cameras": {"c": {"projection_type": "perspective", "width": 4, "height": 3, "focal": 0.5, "k1": 0.1, "k2": 0.2}},
           "shots": {"s": {"camera": "c", "rotation": [0.1, 0.2, 0.3], "translation": [1, 2, 3], "orientation": 1, "gps_dop": 5, "gps_position": [1, 2, 3], "capture_time": 9},
                     "t": {"camera": "c", "rotation": [0, 0, 0], "translation": [4, 5, 6]}}, "points": {"1": {"coordinates": [1, 2, 3], "color": [4, 5, 6]}},
           "biases": {"c": {"rotation": [0, 0, 0], "translation": [0.5, 0.5, 0.5], "scale": 2.0}}, "reference_lla": {"latitude": 1, "longitude": 2, "altitude": 3}}
    gone = [n for j, n in enumerate(("biases", "reference_lla", "points")) if i >> j & 1]
    for n in gone:
        del obj[n]
    if i & 8:
        del obj["shots"]["t"]["translation"]
    d = os.path.join(ck.scratch, "legacy")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "images"))
    open(os.path.join(d, "images", "x.jpg"), "w").close()
    json.dump([obj], open(os.path.join(d, "reconstruction.json"), "w"))
    rec = dataset.DataSet(d).load_reconstruction()[0]
    v, bad = view(rec)
    ck.ev()
    ck.outcome(("legacy", i))
    shots = {r[0]: r for r in v[4][0]}
    ck.expect(not bad and sorted(shots) == ["s", "t"], "legacy", "%r %r" % (bad, shots))
    want = {"s": scene.cpose((scene.rod([0.1, 0.2, 0.3]), np.array([1, 2, 3]))), "t": scene.cpose((np.eye(3), np.zeros(3) if i & 8 else np.array([4, 5, 6])))}
    for k, r in shots.items():
        ck.expect(r[1] == "c" and r[5] == want[k], "legacy:pose", "without %r: shot %r" % (gone, r))
    ck.expect(scene.meta_of(rec.shots["s"]) == {"capture_time": 9, "gps_accuracy": 5, "orientation": 1}, "legacy:meta", repr(scene.meta_of(rec.shots["s"])))
    ck.expect(v[1] == (("c", "id" if i & 1 else "b"),), "legacy:bias", repr(v[1]))
    ck.expect(v[6] == ((0, 0, 0) if i & 2 else (1, 2, 3)), "legacy:reference", repr(v[6]))
    ck.expect(len(v[5]) == (0 if i & 4 else 1), "legacy:points", repr(v[5]))
