"""C01: after any history of edits, the scene graph is what a plain reference model says, and all ways of
reading it agree."""
import copy

import scene
from opensfm import types

LEVEL = "model_checking"
RULE = ("breadth-first search over all histories of scene edits (valid and invalid ones) of an alphabet from several "
        "starting scenes; every transition replays the history on a fresh real Reconstruction and compares everything "
        "that can be read from it with the reference model; a state is a distinct reference content")
ASSUMPTIONS = ["a feature id of a shot is used for at most one landmark; rig instances are removed only when empty"]

BASE = [("camera", 0), ("camera", 1)]
TWO_SHOTS = BASE + [("create_shot", "s0", "c0", None, None, "p"), ("create_shot", "s1", "c1", None, None, "q"),
                    ("create_point", "l0", (1, 2, 3)), ("create_point", "l1", (4, 5, 6))]
RIG = BASE + [("rig_camera", "rcA", "p"), ("rig_camera", "rcB", "q"), ("rig_instance", "X"), ("rig_instance", "Y")]
RIG2 = RIG + [("create_shot", "s0", "c0", "rcA", "X", "r"), ("create_shot", "s1", "c1", "rcB", "X", None),
              ("create_point", "l0", (1, 2, 3))]
PANO = BASE + [("create_shot", "s0", "c0", None, None, "p"), ("create_pano", "s0", "c1", "q"),
               ("create_point", "l0", (1, 2, 3))]

OBS_OPS = [("add_obs", "s0", "l0"), ("add_obs", "s1", "l0"), ("add_obs_obj", "s0", "l1"), ("add_obs", "s1", "l1"),
           ("add_obs", "s2", "l0"), ("remove_obs", "s0", "l0"), ("remove_obs", "s1", "l0"), ("remove_obs", "s0", "l1"),
           ("remove_point", "l0"), ("remove_point", "l1"), ("create_point", "l0", (7, 8, 9)), ("remove_shot", "s0"),
           ("create_shot", "s0", "c0", None, None, "q"), ("clean", 1), ("clean", 2), ("clear",),
           ("color", "l0", (1, 2, 3)), ("move_point", "l1", (0, 0, 1)), ("errs", "l0", {"s0": [0.5, 0.25]}),
           ("meta", "s0", "capture_time", 5.0)]
RIG_OPS = [("create_shot", "s0", "c0", "rcA", "X", "p"), ("create_shot", "s1", "c1", "rcB", "X", None),
           ("create_shot", "s2", "c0", "rcA", "Y", "q"), ("create_shot", "s3", "c0", "rcA", "X", "r"),
           ("create_shot", "s4", "c0", None, None, "p"), ("create_shot", "s4", "c9", "rcA", "Y", "p"),
           ("create_shot", "s5", "c0", "nope", "X", "p"), ("create_shot", "s5", "c0", "rcB", "nope", "p"),
           ("remove_shot", "s0"), ("remove_shot", "s1"), ("remove_shot", "s4"), ("set_inst_pose", "X", "r"),
           ("set_inst_pose", "s4", "q"), ("set_rigcam_pose", "rcA", "r"), ("set_rigcam_pose", "rcA", "id"),
           ("set_shot_pose", "s0", "q"), ("set_shot_pose", "s4", "q"), ("inst_pose_with_shot", "X", "s0", "q"),
           ("inst_pose_with_shot", "X", "s1", "r"), ("inst_pose_with_shot", "X", "s2", "r"), ("remove_inst", "Y"),
           ("rig_instance", "Y"), ("add_obs", "s0", "l0"), ("add_obs", "s1", "l0")]
PANO_OPS = [("create_pano", "s0", "c1", "q"), ("create_pano", "s1", "c0", None), ("create_pano", "s1", "c9", "p"),
            ("remove_pano", "s0"), ("remove_pano", "s1"), ("remove_shot", "s0"), ("remove_shot", "s1"),
            ("create_shot", "s0", "c0", None, None, "p"), ("create_shot", "s1", "c1", None, None, "r"),
            ("set_shot_pose", "s0", "r"), ("set_pano_pose", "s0", "r"), ("set_pano_pose", "s1", "p"),
            ("add_obs", "s0", "l0"), ("add_obs_pano", "s1", "l0"), ("remove_point", "l0"), ("clear",),
            ("set_bias", "c0", "b"), ("set_bias", "c7", "b"), ("camera", 2), ("map_camera", 0), ("clean", 2)]

SPACES = {
    "observations": (TWO_SHOTS, OBS_OPS, 5, 6),
    "observations-from-full": (TWO_SHOTS + [o for o in OBS_OPS[:4]], OBS_OPS, 4, 5),
    "rigs": (RIG, RIG_OPS, 4, 5),
    "rigs-from-full": (RIG2, RIG_OPS, 4, 5),
    "panos": (PANO, PANO_OPS, 4, 5),
    "panos-empty": (BASE + [("create_point", "l0", (1, 2, 3))], PANO_OPS, 4, 5),
}


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, (list, tuple)) else x


def cases(ck):
    out = []
    for name, (start, ops, dq, dt) in SPACES.items():
        for i in range(len(ops)):
            out.append([name, i, dq if ck.quick else dt])
    return out


def step(ck, base_model, hist, op):
    """Applies op after hist on a fresh real scene; returns the model after it (None: op is not legal here)."""
    if not scene.legal(base_model, op):
        return None
    m = copy.deepcopy(base_model)
    valid = True
    try:
        scene.model(m, op)
    except scene.Invalid:
        valid = False
        # the wrapper may already have added default rig objects: keep those, nothing else
        m2 = copy.deepcopy(base_model)
        m2.rigcams, m2.insts = m.rigcams, m.insts
        m = m2
    rec = types.Reconstruction()
    for o in hist:
        try:
            scene.real(rec, o)
        except (RuntimeError, KeyError):
            pass
    raised = None
    try:
        scene.real(rec, op)
    except (RuntimeError, KeyError, IndexError) as e:
        raised = e
    bad = []
    if valid and raised is not None:
        bad.append("raised %r" % (raised,))
    if not valid and raised is None:
        bad.append("accepted an invalid operation")
    got = scene.observe(rec, bad)
    want = scene.norm_points(m.canon())
    if got != want:
        bad.append(scene.diff(got, want))
    ck.transition()
    ck.add("traces")
    if bad:
        ck.fail("scene:%s" % op[0], "after %r then %r: %s" % (hist, op, "; ".join(bad[:4])), detail=hist + [op])
    return m


def check(ck, case):
    name, first, depth = case
    start, ops, _, _ = SPACES[name]
    model = scene.Model()
    for o in start:
        scene.model(model, o)
    model = step(ck, model, list(start), ops[first])
    if model is None:
        return
    ck.state(model.canon())
    seen = {repr(model.canon())}
    frontier = [(list(start) + [ops[first]], model)]
    for _ in range(depth - 1):
        nxt = []
        for hist, m in frontier:
            for op in ops:
                m2 = step(ck, m, hist, op)
                if m2 is None:
                    continue
                c = m2.canon()
                ck.state(c)
                k = repr(c)
                if k not in seen:
                    seen.add(k)
                    nxt.append((hist + [op], m2))
        frontier = nxt
    ck.sample({"space": name, "history": [repr(o) for o in (frontier[-1][0] if frontier else start)][-6:]})
