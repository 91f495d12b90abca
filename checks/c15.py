"""C15: poses, similarities and rigs say the same rigid motion whichever way they are set, read or composed."""
import copy
import itertools
import math
import pickle

import numpy as np
from opensfm import pygeometry, pymap, types
import scene

LEVEL = "model_checking"
RULE = ("all sequences of setters on a pose and on a similarity, and of pose updates on rigs, up to the depth, each state compared "
        "through every getter with a matrix model; all pairs of poses for composition")
ASSUMPTIONS = ["rotations are proper and finite"]
RV = {"i": (0, 0, 0), "z90": (0, 0, math.pi / 2), "d180": (math.pi / math.sqrt(2), math.pi / math.sqrt(2), 0), "g": (0.3, -0.7, 1.1),
      "near": tuple((math.pi - 1e-3) * v for v in (0.6, 0.0, 0.8)), "tiny": (1e-9, 0, -1e-9), "y180": (0, math.pi, 0)}
TV = {"0": (0, 0, 0), "a": (1, -2, 3), "b": (-0.5, 1000.25, 7)}


def R(n):
    return scene.rod(RV[n])


def T(n):
    return np.array(TV[n], float)


OPS = [(op, r, t) for op in ("w2c_m", "w2c_v", "w2c_4", "c2w_m", "c2w_v", "c2w_4") for r, t in (("z90", "a"), ("g", "b"))]
OPS += [("rot", r, "") for r in ("d180", "g", "i")] + [("rotm", r, "") for r in ("z90", "near")]
OPS += [("tr", "", t) for t in ("a", "0")] + [("origin", "", t) for t in ("b", "0")]


def mat4(r, t):
    m = np.eye(4)
    m[:3, :3], m[:3, 3] = r, t
    return m


def model_op(s, op):
    n, r, t = op
    if n.startswith("w2c"):
        return (R(r), T(t))
    if n.startswith("c2w"):
        return (R(r).T, -R(r).T @ T(t))
    if n in ("rot", "rotm"):
        return (R(r), s[1])
    if n == "tr":
        return (s[0], T(t))
    return (s[0], -s[0] @ T(t))


def real_op(p, op):
    n, r, t = op
    rv = np.array(RV[r], float) if r else None
    if n in ("w2c_m", "c2w_m"):
        getattr(p, "set_from_world_to_cam" if n[0] == "w" else "set_from_cam_to_world")(R(r), T(t))
    elif n in ("w2c_v", "c2w_v"):
        getattr(p, "set_from_world_to_cam" if n[0] == "w" else "set_from_cam_to_world")(rv, T(t))
    elif n in ("w2c_4", "c2w_4"):
        getattr(p, "set_from_world_to_cam" if n[0] == "w" else "set_from_cam_to_world")(mat4(R(r), T(t)))
    elif n == "rot":
        p.rotation = rv
    elif n == "rotm":
        p.set_rotation_matrix(R(r))
    elif n == "tr":
        p.translation = T(t)
    else:
        p.set_origin(T(t))


PTS = np.array([[0, 0, 0], [1, 2, 3], [-4.5, 0.25, 100]], float)


def compare(ck, p, s, what, key):
    Rm, t = s
    o = -Rm.T @ t
    sc = max(1.0, float(np.abs(t).max()))

    def eq(got, want, name):
        got = np.asarray(got)
        if got.shape != np.shape(want) or not np.allclose(got, want, atol=1e-7 * sc, rtol=0):
            ck.fail("%s:%s" % (key, name), "%s: %s is\n%r instead of\n%r" % (what, name, got, np.asarray(want)))
    eq(p.get_rotation_matrix(), Rm, "get_rotation_matrix")
    eq(p.get_R_world_to_cam(), Rm, "get_R_world_to_cam")
    eq(p.get_R_cam_to_world(), Rm.T, "get_R_cam_to_world")
    eq(p.translation, t, "translation")
    eq(p.get_t_world_to_cam(), t, "get_t_world_to_cam")
    eq(p.get_t_cam_to_world(), o, "get_t_cam_to_world")
    eq(p.get_origin(), o, "get_origin")
    eq(p.get_world_to_cam(), mat4(Rm, t), "get_world_to_cam")
    eq(p.get_cam_to_world(), mat4(Rm.T, o), "get_cam_to_world")
    eq(p.get_Rt(), mat4(Rm, t)[:3], "get_Rt")
    for name, v, M in (("rotation", p.rotation, Rm), ("get_R_world_to_cam_min", p.get_R_world_to_cam_min(), Rm), ("get_R_cam_to_world_min", p.get_R_cam_to_world_min(), Rm.T)):
        eq(scene.rod(v), M, name)
        ck.expect(np.linalg.norm(v) < math.pi + 1e-6, key + ":min", "%s: %s %r is not minimal" % (what, name, v))
    eq(p.transform_many(PTS), PTS @ Rm.T + t, "transform_many")
    eq(p.transform_inverse_many(PTS), (PTS - t) @ Rm, "transform_inverse_many")
    eq(p.transform(PTS[1]), Rm @ PTS[1] + t, "transform")
    eq(p.transform_inverse(PTS[1]), Rm.T @ (PTS[1] - t), "transform_inverse")
    ang = math.atan2(np.linalg.norm(Rm - Rm.T) / math.sqrt(8), (np.trace(Rm) - 1) / 2)
    o = np.linalg.norm(t)
    if (ang == 0 and o == 0) or max(ang, o) > 1e-6:
        ck.expect(bool(p.is_identity(1e-10)) == (ang == 0 and o == 0), key + ":identity", "%s: is_identity %r" % (what, p.is_identity(1e-10)))


def cases(ck):
    d = 2 if ck.quick else 3
    out = [["seq", d, i] for i in range(len(OPS))]
    out += [["new", 0], ["sim", 3 if ck.quick else 4, 0]]
    n = len(RV) * len(TV)
    out += [["pair", i] for i in range(n)]
    out += [["rig", k, i] for k in range(3) for i in range(len(rig_ops(k)))]
    return out


def check(ck, case):
    globals()[case[0]](ck, *case[1:])


def seq(ck, depth, first):
    """all sequences of setters that start with one, checked after every step"""
    for rest in itertools.product(range(len(OPS)), repeat=depth):
        p, s = pygeometry.Pose(), (np.eye(3), np.zeros(3))
        what = []
        for i in (first,) + rest:
            real_op(p, OPS[i])
            s = model_op(s, OPS[i])
            what.append(OPS[i])
            ck.transition()
        ck.state((first,) + rest)
        compare(ck, p, s, "after %r" % (what,), "set")
    ck.add("traces", len(OPS) ** depth)
    if first == 3:
        ck.sample(what)


def new(ck, _):
    for r, t in itertools.product(RV, TV):
        s = (R(r), T(t))
        for how, p in (("matrix", pygeometry.Pose(R(r), T(t))), ("vector", pygeometry.Pose(np.array(RV[r], float), T(t)))):
            compare(ck, p, s, "Pose(%s %s, %s)" % (how, r, t), "new")
            ck.transition()
            for name, q in (("copy", copy.copy(p)), ("deepcopy", copy.deepcopy(p)), ("pickle", pickle.loads(pickle.dumps(p)))):
                compare(ck, q, s, "%s of Pose(%s, %s)" % (name, r, t), name)
                q.set_from_world_to_cam(R("g"), T("b"))
                compare(ck, p, s, "Pose(%s, %s) after its %s was changed" % (r, t, name), name)
                ck.state(("new", how, r, t, name))
        for p in (pygeometry.Pose(R(r)), pygeometry.Pose(np.array(RV[r], float))):
            compare(ck, p, (R(r), T("0")), "Pose(%s)" % r, "new")
    compare(ck, pygeometry.Pose(), (np.eye(3), np.zeros(3)), "Pose()", "new")
    ck.expect(pygeometry.Pose().is_identity(1e-15), "identity", "Pose() is not the identity")


def pair(ck, i):
    names = list(itertools.product(RV, TV))
    a = names[i]
    A = (R(a[0]), T(a[1]))
    pa = pygeometry.Pose(*A)
    inv = scene.inverse(A)
    compare(ck, pa.inverse(), inv, "inverse of %r" % (a,), "inverse")
    compare(ck, pa, A, "%r after its inverse was taken" % (a,), "inverse")
    for b in names:
        B = (R(b[0]), T(b[1]))
        pb = pygeometry.Pose(*B)
        compare(ck, pa.compose(pb), scene.compose(A, B), "%r compose %r" % (a, b), "compose")
        compare(ck, pa.relative_to(pb), scene.compose(A, scene.inverse(B)), "%r relative_to %r" % (a, b), "relative_to")
        compare(ck, pb, B, "%r after composition" % (b,), "compose")
        ck.state(("pair", a, b))
        ck.transition(2)
    ck.add("traces", len(names))


def sim(ck, depth, _):
    ops = [("t", "a"), ("t", "b"), ("r", "g"), ("r", "d180"), ("r", "i"), ("s", 2.5), ("s", 0.125)]
    starts = [("i", "0", 1.0), ("g", "a", 2.0), ("z90", "b", 0.5)]
    for st in starts:
        for n in range(depth + 1):
            for q in itertools.product(ops, repeat=n):
                for form in ("m", "v"):
                    S = pygeometry.Similarity(np.array(RV[st[0]], float), T(st[1]), st[2])
                    if form == "m":
                        if n:
                            continue
                    r, t, s = R(st[0]), T(st[1]), st[2]
                    for k, v in q:
                        if k == "t":
                            S.translation, t = T(v), T(v)
                        elif k == "r":
                            S.rotation, r = np.array(RV[v], float), R(v)
                        else:
                            S.scale, s = v, v
                        ck.transition()
                    what = "similarity %r after %r" % (st, q)
                    x = np.array([0.3, -1.0, 2.0])
                    y = s * r @ x + t
                    I = S.inverse()
                    for name, got, want in (("translation", S.translation, t), ("rotation", scene.rod(S.rotation), r), ("scale", S.scale, s), ("get_rotation_matrix", S.get_rotation_matrix(), r),
                                            ("transform", S.transform(x), y), ("inverse", I.transform(y), x), ("inverse", S.transform(I.transform(x)), x),
                                            ("inverse-scale", I.scale, 1 / s), ("inverse-rotation", I.get_rotation_matrix(), r.T)):
                        ck.expect(np.allclose(got, want, atol=1e-7 * (1 + np.abs(t).max() * max(1, 1 / s))), "similarity:" + name, "%s: %s %r instead of %r" % (what, name, got, want))
                    ck.state(("sim", st, q))
        ck.add("traces", len(ops) ** depth)


# ---------------------------------------------------------------- rigs
def rig_ops(kind):
    shots = ["s0", "s1", "s2"][:1 if kind == 0 else 2 if kind == 1 else 3]
    ops = [["inst", p] for p in ("p", "r")] + [["with", s, p] for s in shots for p in ("q", "id")] + [["cam", c, p] for c in range(len(shots)) for p in ("id", "r")]
    ops += [["shot", s, "q"] for s in shots] + [["shot_mut", s, "r"] for s in shots] + [["cams", len(shots) - 1, "q"]]
    return ops


def rig(ck, kind, first):
    ops = rig_ops(kind)
    depth = 2 if ck.quick else 3
    n = 1 if kind == 0 else 2 if kind == 1 else 3
    for rest in itertools.product(ops, repeat=depth - 1):
        rec = types.Reconstruction()
        rec.add_camera(scene.mk_camera(0))
        base = ["id", "p", "q"]
        cams = [scene.mat(base[c]) for c in range(n)]
        for c in range(n):
            rec.add_rig_camera(pymap.RigCamera(scene.mk_pose(base[c]), "rc%d" % c))
        rec.add_rig_instance(pymap.RigInstance("ri"))
        for c in range(n):
            rec.create_shot("s%d" % c, "c0", None, "rc%d" % c, "ri")
        inst = scene.IDENT
        for op in [ops[first]] + list(rest):
            what = "%d cameras, %r" % (n, [ops[first]] + list(rest))
            ri = rec.rig_instances["ri"]
            ident = scene.cpose(cams[0]) == scene.cpose(scene.IDENT) and n == 1
            if op[0] == "inst":
                ri.pose = scene.mk_pose(op[1])
                inst = scene.mat(op[1])
            elif op[0] == "with":
                ri.update_instance_pose_with_shot(op[1], scene.mk_pose(op[2]))
                inst = scene.compose(scene.inverse(cams[int(op[1][1])]), scene.mat(op[2]))
            elif op[0] == "cam":
                rec.rig_cameras["rc%d" % op[1]].pose = scene.mk_pose(op[2])
                cams[op[1]] = scene.mat(op[2])
            elif op[0] == "cams":
                ri.update_rig_camera_pose("rc%d" % op[1], scene.mk_pose(op[2]))
                cams[op[1]] = scene.mat(op[2])
            else:
                try:
                    if op[0] == "shot":
                        rec.shots[op[1]].pose = scene.mk_pose(op[2])
                    else:
                        m = scene.mat(op[2])
                        rec.shots[op[1]].pose.set_from_world_to_cam(m[0], m[1])
                    ok = True
                except RuntimeError:
                    ok = False
                ck.expect(ok == ident, "rig:guard", "%s: setting the pose of %s %s" % (what, op[1], "is accepted" if ok else "is refused"))
                if ok and ident:
                    inst = scene.mat(op[2])
            ck.transition()
            compare(ck, rec.rig_instances["ri"].pose, inst, what + ": instance", "rig-instance")
            for c in range(n):
                sh = rec.shots["s%d" % c]
                want = scene.compose(cams[c], inst)
                compare(ck, sh.pose, want, what + ": shot %d" % c, "rig-shot")
                compare(ck, rec.rig_cameras["rc%d" % c].pose, cams[c], what + ": rig camera %d" % c, "rig-camera")
                compare(ck, sh.rig_camera.pose, cams[c], what + ": rig camera of shot %d" % c, "rig-camera")
                X = want[0].T @ (np.array([0.1, -0.2, 3.0]) - want[1])
                px = sh.camera.project(np.array([0.1, -0.2, 3.0]))
                ck.expect(np.allclose(sh.project(X), px, atol=1e-9) and np.allclose(sh.project_many(X[None]), px[None], atol=1e-9), "rig-project",
                          "%s: shot %d projects %r to %r instead of %r" % (what, c, X, sh.project(X), px))
                b = want[0].T @ sh.camera.pixel_bearing(px)
                ck.expect(np.allclose(sh.bearing(px), b, atol=1e-9) and np.allclose(sh.bearing_many(px[None]), b[None], atol=1e-9), "rig-bearing", "%s: shot %d bearing %r" % (what, c, sh.bearing(px)))
        ck.state(("rig", kind, first, tuple(map(tuple, rest))))
        ck.add("traces")
