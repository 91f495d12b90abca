"""C02: copying a scene (deep copy) or its members (add_shot, add_point, add_camera, add_pano_shot) gives equal
content that shares nothing with the source."""
import copy
import itertools

import numpy as np
import scene
from opensfm import pymap, types

LEVEL = "model_checking"
RULE = ("every scene of a family (all subsets of optional ingredients: rigs, panos, points, observations, biases, colours, "
        "metadata, unused rig objects) is copied and compared; then every edit of an alphabet is applied to one side and "
        "the other side must not change; member copies go into destinations that already hold each subset of the source")
ASSUMPTIONS = ["a rig instance holds either shots or pano shots, as the Python API creates them"]

BASE = [("camera", 0), ("camera", 1), ("create_shot", "s0", "c0", None, None, "p")]
PARTS = {
    "rig": [("rig_camera", "rcA", "p"), ("rig_camera", "rcB", "q"), ("rig_instance", "X"),
            ("create_shot", "r0", "c0", "rcA", "X", "r"), ("create_shot", "r1", "c1", "rcB", "X", None),
            ("meta", "r1", "capture_time", 7.5)],
    "pano": [("create_pano", "s0", "c1", "q")],
    "points": [("create_point", "l0", (1, 2, 3)), ("create_point", "l1", (4, 5, 6)), ("add_obs", "s0", "l0"),
               ("color", "l0", (9, 8, 7)), ("errs", "l0", {"s0": [0.5, 0.25]})],
    "panoobs": [("create_point", "l2", (4, 5, 6)), ("create_pano", "s7", "c0", None), ("add_obs_pano", "s7", "l2")],
    "bias": [("set_bias", "c0", "b")],
    "meta": [("meta", "s0", "sequence_key", "seq"), ("meta", "s0", "orientation", 3)],
    "unused": [("rig_camera", "rcU", "q"), ("rig_instance", "U"), ("set_inst_pose", "U", "r")],
}
EDITS = [("remove_shot", "s0"), ("remove_shot", "r0"), ("set_shot_pose", "s0", "q"), ("set_inst_pose", "X", "q"),
         ("set_rigcam_pose", "rcA", "r"), ("create_shot", "n0", "c1", None, None, "q"), ("remove_pano", "s0"),
         ("set_pano_pose", "s0", "r"), ("remove_point", "l0"), ("move_point", "l0", (0, 0, 0)),
         ("color", "l0", (1, 1, 1)), ("add_obs", "s0", "l1"), ("remove_obs", "s0", "l0"), ("set_bias", "c0", "id"),
         ("meta", "s0", "sequence_key", "other"), ("clear",), ("camera", 2), ("focal",), ("reference",)]


def build(parts):
    rec, mod = types.Reconstruction(), scene.Model()
    for op in (BASE[:2] if "bare" in parts else BASE) + [o for p in parts if p != "bare" for o in PARTS[p]]:
        scene.model(mod, op)
        scene.real(rec, op)
    if "bare" not in parts:
        rec.shots["s0"].scale = 2.5
        rec.shots["s0"].merge_cc = 4
        rec.shots["s0"].covariance = np.diag([1.0, 2, 3])
    rec.map.set_reference(10.0, 20.0, 30.0)
    if "meta" in parts:
        md = rec.shots["s0"].metadata
        md.gps_position.value = np.array([1.0, 2, 3])
        md.gps_accuracy.value = 4.0
        md.opk_angles.value = np.array([0.1, 0.2, 0.3])
        md.opk_accuracy.value = 0.5
        md.gravity_down.value = np.array([0.0, 0, -1])
        md.compass_angle.value = 55.0
        md.compass_accuracy.value = 6.0
        md.attributes = {"a": "b"}
        mod.meta("s0", "gps_accuracy", 4.0)
    return rec, mod


def extra(rec, bad):
    """what scene.observe does not read"""
    ref = rec.map.get_reference()
    out = [(round(ref.lat, 9), round(ref.lon, 9), round(ref.alt, 9))]
    for view in (rec.shots, rec.pano_shots):
        for k in sorted(view.keys()):
            out.append(shot_extra(view[k]))
    return out


def shot_extra(s):
    md = s.metadata
    vals = []
    for f in ("capture_time", "gps_position", "gps_accuracy", "compass_angle", "compass_accuracy", "opk_angles",
              "opk_accuracy", "gravity_down", "orientation", "sequence_key"):
        m = getattr(md, f)
        v = m.value if m.has_value else None
        vals.append((f, v if v is None or isinstance(v, str) else tuple(np.ravel(v).round(9).tolist())))
    return (s.id, s.scale, s.merge_cc, np.asarray(s.covariance).tolist(), tuple(vals), tuple(sorted(md.attributes.items())),
            (s.camera.focal, s.camera.width, s.camera.projection_type))


def everything(rec):
    bad = []
    got = (scene.observe(rec, bad), extra(rec, bad))
    return got, bad


def edit(rec, op):
    if op[0] == "focal":
        rec.cameras["c0"].focal = 9.0
    elif op[0] == "reference":
        rec.map.set_reference(1.0, 2.0, 3.0)
    else:
        scene.real(rec, op)


def cases(ck):
    subsets = [list(s) for n in range(len(PARTS) + 1) for s in itertools.combinations(sorted(PARTS), n)]
    out = [["deep", s, o] for s in subsets for o in (False, True)]
    out += [["deep", ["bare"] + list(s), True] for n in range(4) for s in itertools.combinations(["rig", "bias", "unused"], n)]  # no shot outside of rigs
    srcs = [["rig"], ["rig", "points", "meta"], ["pano"], ["pano", "rig", "meta", "points"], ["meta", "bias"],
            ["points", "pano", "bias"]]
    dsts = [[]] + [list(s) for n in (1, 2) for s in itertools.combinations(["rig", "pano", "points", "bias"], n)]
    for s in srcs:
        for d in dsts + ["empty", "camera"]:
            out.append(["member", s, d])
    return out


def check_deep(ck, parts, with_obs):
    rec, mod = build(parts)
    before, bad = everything(rec)
    cp = copy.deepcopy(rec, {"copy_observations": with_obs})
    want = copy.deepcopy(mod)
    if not with_obs:
        want.obs = {}
        for p in want.points.values():
            p["errs"] = {}
    got, bad2 = everything(cp)
    bad += bad2
    if got[0] != scene.norm_points(want.canon()):
        bad.append("the copy differs: " + scene.diff(got[0], scene.norm_points(want.canon())))
    if got[1] != before[1]:
        bad.append("the copy differs: %r instead of %r" % (got[1], before[1]))
    after, _ = everything(rec)
    if after != before:
        bad.append("copying changed the source")
    ck.state(mod.canon())
    ck.transition()
    ck.add("traces")
    if bad:
        ck.fail("deepcopy", "parts %r: %s" % (parts, "; ".join(bad[:4])))
        return
    for op in EDITS:
        for which in (0, 1):
            rec, mod = build(parts)
            cp = copy.deepcopy(rec, {"copy_observations": with_obs})
            edited, other = (rec, cp) if which == 0 else (cp, rec)
            want, _ = everything(other)
            try:
                edit(edited, op)
            except (RuntimeError, KeyError):
                continue
            got, bad = everything(other)
            ck.transition()
            ck.expect(got == want and not bad, "deepcopy-shares:%s" % op[0],
                      "editing %s with %r changed the other: %s %s" % (("source", "copy")[which], op, bad,
                                                                       scene.diff(got[0], want[0])))
    # the copy outlives its source
    rec, mod = build(parts)
    cp = copy.deepcopy(rec, {"copy_observations": with_obs})
    want, _ = everything(cp)
    del rec
    got, _ = everything(cp)
    ck.expect(got == want, "deepcopy-lifetime", "the copy changed when the source was destroyed")


def check_member(ck, parts, dst_parts):
    """add_camera / add_shot / add_pano_shot / add_point from a source into a destination"""
    def dest():
        if dst_parts == "empty":
            return types.Reconstruction(), scene.Model()
        if dst_parts == "camera":
            rec, mod = types.Reconstruction(), scene.Model()
            c = scene.mk_camera(1)
            c.id = "c0"
            rec.add_camera(c)
            return rec, mod
        return build(dst_parts)

    src, _ = build(parts)
    for view, ids in (("shots", sorted(src.shots.keys())), ("pano_shots", sorted(src.pano_shots.keys()))):
        for sid in ids:
            src, _ = build(parts)
            rec, _ = dest()
            pano = view == "pano_shots"
            s = getattr(src, view)[sid]
            # the two sides start from different poses, so the update is visible
            group = {sid} if pano else set(s.rig_instance.shots)
            had = {k for k in group if k in getattr(rec, view)}
            others = {(v, k): (shot_extra(getattr(rec, v)[k]), scene.cpose(scene.real_pose(getattr(rec, v)[k].pose)))
                      for v in ("shots", "pano_shots") for k in getattr(rec, v).keys()
                      if not (v == view and k in group)}
            npoints, ncams = len(rec.points), set(rec.cameras.keys())
            cam_before = {k: rec.cameras[k].focal for k in ncams}
            if had:
                # move the destination away first
                rec.rig_instances[getattr(rec, view)[sid].rig_instance_id].pose = scene.mk_pose("r")
                src_pose = scene.mk_pose("q")
                s.rig_instance.pose = src_pose
            s.metadata.capture_time.value = 123.0
            s.merge_cc = 77
            s.scale = 3.25
            before, _ = everything(src)
            ret = rec.add_pano_shot(s) if pano else rec.add_shot(s)
            bad = []
            scene.observe(rec, bad)
            new = getattr(rec, view)[sid]
            scene.same(ret.id, sid, "returned shot", bad)
            a, b = shot_extra(new), shot_extra(s)
            scene.same(a[:-1], b[:-1], "content of the copied shot", bad)
            for k in sorted(group):
                if k not in getattr(rec, view):
                    bad.append("%s of the same rig instance was not copied" % k)
                    continue
                n, o = getattr(rec, view)[k], getattr(src, view)[k]
                scene.same(scene.cpose(scene.real_pose(n.pose)), scene.cpose(scene.real_pose(o.pose)), "pose of " + k, bad)
                if not pano:
                    scene.same((n.rig_instance_id, n.rig_camera_id), (o.rig_instance_id, o.rig_camera_id), "rig of " + k, bad)
                if k not in had:
                    scene.same(shot_extra(n)[:-1], shot_extra(o)[:-1], "content of " + k, bad)
                scene.same(n.camera.id, o.camera.id, "camera id of " + k, bad)
            for k, f in cam_before.items():
                scene.same(rec.cameras[k].focal, f, "camera %s of the destination" % k, bad)
            for (v, k), w in others.items():
                scene.same((shot_extra(getattr(rec, v)[k]), scene.cpose(scene.real_pose(getattr(rec, v)[k].pose))), w,
                           "%s %s of the destination" % (v, k), bad)
            scene.same(len(rec.points), npoints, "number of points", bad)
            after, _ = everything(src)
            if after != before:
                bad.append("the source changed")
            ck.transition()
            ck.add("traces")
            ck.state((tuple(parts), repr(dst_parts), view, sid))
            if not ck.expect(not bad, "member:%s" % view, "adding %s of %r to %r: %s" % (sid, parts, dst_parts, "; ".join(bad[:4]))):
                continue
            want, _ = everything(rec)
            for op in EDITS + [("focal",)]:
                try:
                    edit(src, op)
                except (RuntimeError, KeyError):
                    pass
            got, bad = everything(rec)
            ck.expect(got == want and not bad, "member-shares", "editing the source of %s changed the destination: %s %s"
                      % (sid, bad, scene.diff(got[0], want[0])))
            del src, s
            got, bad = everything(rec)
            ck.expect(got == want, "member-lifetime", "destroying the source of %s changed the destination" % sid)
    src, _ = build(parts)
    rec, _ = dest()
    for p in list(src.points.values()):
        if p.id in rec.points:
            continue
        q = rec.add_point(p)
        ck.expect(tuple(q.coordinates) == tuple(p.coordinates) and tuple(q.color) == tuple(p.color) and
                  rec.points[p.id].id == p.id, "member:point", "point %s copied wrongly" % p.id)
        p.coordinates = np.array([9.0, 9, 9])
        ck.expect(tuple(rec.points[p.id].coordinates) != (9.0, 9, 9), "member-shares:point", "point %s is shared" % p.id)
        ck.transition()
    n = len(rec.points)
    src, _ = build(parts)
    rec.points = dict(src.points.items())
    ck.expect(sorted(rec.points.keys()) == sorted(src.points.keys()) and
              all(tuple(rec.points[k].color) == tuple(src.points[k].color) for k in src.points.keys()) and
              all(rec.points[k].number_of_observations() == 0 for k in rec.points.keys()) and
              all(not s.get_valid_landmarks() for s in rec.shots.values()),
              "member:set_points", "assigning points over %d existing ones gave %r" % (n, sorted(rec.points.keys())))


def check(ck, case):
    if case[0] == "deep":
        check_deep(ck, case[1], case[2])
    else:
        check_member(ck, case[1], case[2])
    ck.sample(case)
