"""Reference model of the scene graph (plain dicts) and an observer of the real one."""
import numpy as np
from opensfm import pygeometry, pymap, types

POSES = {
    "id": ([0, 0, 0], [0, 0, 0]),
    "p": ([0.1, -0.2, 0.3], [1, 2, 3]),
    "q": ([-0.4, 0.1, 0.25], [-1, 0.5, 2]),
    "r": ([1.2, 0.3, -0.7], [0.5, -3, 1]),
}
RIGCAMS = {"ident": "id", "rcA": "p", "rcB": "q"}


def mk_pose(name):
    r, t = POSES[name]
    return pygeometry.Pose(np.array(r, float), np.array(t, float))


def mk_camera(i):
    c = pygeometry.Camera.create_perspective(0.5 + 0.1 * i, 0.01 * i, -0.02 * i)
    c.id = "c%d" % i
    c.width, c.height = 640 + i, 480
    return c


def mk_obs(s, l, fid=None):
    n = (ord(s[-1]) - 47) * 10 + ord(l[-1])
    return pymap.Observation(0.001 * n, -0.002 * n, 0.5 + 0.001 * n, n % 256, (2 * n) % 256, 3,
                             ord(l[-1]) - 40 if fid is None else fid, n % 5, n % 3)


def obs_tuple(o):
    return (round(float(o.point[0]), 9), round(float(o.point[1]), 9), round(float(o.scale), 9),
            tuple(int(v) for v in o.color), int(o.id), int(o.segmentation), int(o.instance))


def rod(v):
    v = np.array(v, float)
    a = np.linalg.norm(v)
    if a < 1e-12:
        return np.eye(3)
    k = v / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def mat(name):
    r, t = POSES[name]
    return rod(r), np.array(t, float)


def compose(a, b):
    """a after b (world -> b -> a)"""
    return a[0] @ b[0], a[0] @ b[1] + a[1]


def inverse(a):
    return a[0].T, -a[0].T @ a[1]


IDENT = (np.eye(3), np.zeros(3))


def cpose(p):
    v = np.concatenate([np.asarray(p[0]).ravel(), np.asarray(p[1]).ravel()])
    return tuple(np.round(v, 6) + 0.0)


def real_pose(p):
    return p.get_rotation_matrix(), np.array(p.translation)


class Invalid(Exception):
    pass


class Model:
    """What the scene must contain. Every operation either succeeds or raises Invalid and changes nothing."""

    def __init__(self):
        self.cams, self.bias, self.rigcams, self.insts = {}, {}, {}, {}
        self.shots, self.panos, self.points, self.obs = {}, {}, {}, {}

    # views
    def table(self, pano):
        return self.panos if pano else self.shots

    def pose(self, sid, pano=False):
        s = self.table(pano)[sid]
        return compose(self.rigcams[s["rc"]], self.insts[s["ri"]]["pose"])

    def members(self, ri):
        return {(k, pano): s["rc"] for pano in (False, True) for k, s in self.table(pano).items() if s["ri"] == ri}

    # operations
    def camera(self, i):
        if "c%d" % i not in self.cams:
            self.cams["c%d" % i] = (0.5 + 0.1 * i, 0.01 * i, -0.02 * i)
            self.bias["c%d" % i] = "id"

    map_camera = camera  # a camera that is there is kept, with its bias

    def set_bias(self, cid, name):
        if cid not in self.cams:
            raise Invalid
        self.bias[cid] = name

    def rig_camera(self, rc, pose):
        self.rigcams.setdefault(rc, mat(pose))

    def rig_instance(self, ri):
        self.insts.setdefault(ri, {"pose": IDENT})

    def create_shot(self, sid, cid, rc, ri, pose, pano=False):
        rc_, ri_ = rc or cid, ri or sid
        if pano:
            rc_, ri_ = "panoshot_" + cid, "panoshot_" + sid
        if not rc or pano:
            self.rigcams.setdefault(rc_, IDENT)
        if not ri or pano:
            self.insts.setdefault(ri_, {"pose": IDENT})
        if rc_ not in self.rigcams or ri_ not in self.insts:
            raise Invalid
        if sid in self.table(pano) or cid not in self.cams:
            raise Invalid
        if rc_ in self.members(ri_).values():
            raise Invalid
        self.table(pano)[sid] = {"cam": cid, "rc": rc_, "ri": ri_, "meta": {}, "scale": 1.0, "cc": 0}
        if pose is not None:
            self.insts[ri_]["pose"] = compose(inverse(self.rigcams[rc_]), mat(pose))

    def remove_shot(self, sid, pano=False):
        if sid not in self.table(pano):
            raise Invalid
        del self.table(pano)[sid]
        for k in [k for k in self.obs if k[0] == sid and k[1] == pano]:
            del self.obs[k]
            self.points[k[2]]["errs"].pop(sid, None)

    def create_point(self, l, xyz):
        if l in self.points:
            raise Invalid
        self.points[l] = {"xyz": tuple(xyz), "color": (255, 0, 0), "errs": {}}

    def remove_point(self, l):
        if l not in self.points:
            raise Invalid
        del self.points[l]
        for k in [k for k in self.obs if k[2] == l]:
            del self.obs[k]

    def add_obs(self, sid, l, pano=False):
        if sid not in self.table(pano) or l not in self.points:
            raise Invalid
        self.obs.setdefault((sid, pano, l), obs_tuple(mk_obs(sid, l)))

    def remove_obs(self, sid, l):
        if (sid, False, l) not in self.obs:
            raise Invalid
        del self.obs[(sid, False, l)]
        self.points[l]["errs"].pop(sid, None)

    def clean(self, n):
        for l in list(self.points):
            if sum(1 for k in self.obs if k[2] == l) < n:
                self.remove_point(l)

    def clear(self):
        self.points, self.obs = {}, {}

    def set_inst_pose(self, ri, pose):
        if ri not in self.insts:
            raise Invalid
        self.insts[ri]["pose"] = mat(pose)

    def set_rigcam_pose(self, rc, pose):
        if rc not in self.rigcams:
            raise Invalid
        self.rigcams[rc] = mat(pose)

    def set_shot_pose(self, sid, pose, pano=False):
        if sid not in self.table(pano):
            raise Invalid
        s = self.table(pano)[sid]
        ident = cpose(self.rigcams[s["rc"]]) == cpose(IDENT)
        if not ident or len(self.members(s["ri"])) != 1:
            raise Invalid
        self.insts[s["ri"]]["pose"] = mat(pose)

    def inst_pose_with_shot(self, ri, sid, pose):
        if ri not in self.insts or sid not in self.shots or self.shots[sid]["ri"] != ri:
            raise Invalid
        self.insts[ri]["pose"] = compose(inverse(self.rigcams[self.shots[sid]["rc"]]), mat(pose))

    def remove_inst(self, ri):
        if ri not in self.insts:
            raise Invalid
        del self.insts[ri]

    def meta(self, sid, key, value, pano=False):
        if sid not in self.table(pano):
            raise Invalid
        self.table(pano)[sid]["meta"][key] = value

    def canon(self):
        return (
            tuple(sorted(self.cams.items())), tuple(sorted(self.bias.items())),
            tuple(sorted((k, cpose(v)) for k, v in self.rigcams.items())),
            tuple(sorted((k, cpose(v["pose"]), tuple(sorted((sid, rc) for (sid, _), rc in self.members(k).items())))
                         for k, v in self.insts.items())),
            tuple(tuple(sorted((k, s["cam"], s["rc"], s["ri"], tuple(sorted(s["meta"].items())), cpose(self.pose(k, pano)))
                               for k, s in self.table(pano).items())) for pano in (False, True)),
            tuple(sorted((k, p["xyz"], p["color"], tuple(sorted(p["errs"].items()))) for k, p in self.points.items())),
            tuple(sorted(self.obs.items())),
        )


BIASES = {"id": (0.0, 1.0), "b": (0.5, 2.0)}


def mk_bias(name):
    t, s = BIASES[name]
    return pygeometry.Similarity(np.zeros(3), np.array([t, t, t]), s)


def bias_name(b):
    for n, (t, s) in BIASES.items():
        if abs(b.scale - s) < 1e-9 and np.allclose(b.translation, t):
            return n
    return repr((b.scale, b.translation))


META = ["capture_time", "gps_accuracy", "orientation", "sequence_key"]


def meta_of(shot):
    out = {}
    for k in META:
        m = getattr(shot.metadata, k)
        if m.has_value:
            out[k] = m.value
    return out


def same(a, b, what, bad):
    if a != b:
        bad.append("%s: %r instead of %r" % (what, a, b))


def observe(rec, bad):
    """The canonical content of a real reconstruction, read through every route the API has.
    Contradictions between the routes are appended to `bad`."""
    m = rec.map
    views = {}
    for name, view in (("cameras", rec.cameras), ("biases", rec.biases), ("rig_cameras", rec.rig_cameras),
                       ("shots", rec.shots), ("pano_shots", rec.pano_shots), ("points", rec.points)):
        keys = sorted(view.keys())
        same(len(view), len(keys), "len(%s)" % name, bad)
        same(sorted(iter(view)), keys, "iter(%s)" % name, bad)
        items = dict(view.items())
        same(sorted(items), keys, "%s.items()" % name, bad)
        same(len(list(view.values())), len(keys), "%s.values()" % name, bad)
        for k in keys:
            same(k in view, True, "%s in %s" % (k, name), bad)
            got = getattr(view[k], "id", k)
            same(got, k, "%s[%s].id" % (name, k), bad)
            same(getattr(items[k], "id", k), k, "%s.items()[%s].id" % (name, k), bad)
        same("nothing" in view, False, "nothing in %s" % name, bad)
        views[name] = keys
    inst_keys = sorted(rec.rig_instances.keys())
    same(len(rec.rig_instances), len(inst_keys), "len(rig_instances)", bad)
    cams = tuple((k, (round(rec.cameras[k].focal, 9), round(rec.cameras[k].k1, 9), round(rec.cameras[k].k2, 9)))
                 for k in views["cameras"])
    bias = tuple((k, bias_name(rec.biases[k])) for k in views["biases"])
    rigcams = tuple((k, cpose(real_pose(rec.rig_cameras[k].pose))) for k in views["rig_cameras"])
    insts = []
    for k in inst_keys:
        ri = rec.rig_instances[k]
        same(ri.id, k, "rig_instances[%s].id" % k, bad)
        rc = dict(ri.rig_camera_ids)
        same(sorted(ri.keys()), sorted(rc), "keys of instance %s" % k, bad)
        same(sorted(ri.shots), sorted(rc), "shots of instance %s" % k, bad)
        same(sorted(ri.camera_ids), sorted(rc), "camera_ids of instance %s" % k, bad)
        insts.append((k, cpose(real_pose(ri.pose)), tuple(sorted(rc.items()))))
    tables = []
    obs = {}
    by_point = {}
    for name, view, pano in (("shots", rec.shots, False), ("pano_shots", rec.pano_shots, True)):
        rows = []
        for k in views[name]:
            s = view[k]
            ri = rec.rig_instances
            same(s.rig_instance_id in ri, True, "instance of %s exists" % k, bad)
            if s.rig_instance_id in ri:
                same(k in ri[s.rig_instance_id].shots, True, "%s listed by its instance" % k, bad)
                if k in ri[s.rig_instance_id].rig_camera_ids:
                    same(ri[s.rig_instance_id].rig_camera_ids[k], s.rig_camera_id, "rig camera of %s" % k, bad)
                same(s.rig_instance.id, s.rig_instance_id, "instance object of %s" % k, bad)
            same(s.rig_camera_id in rec.rig_cameras, True, "rig camera of %s exists" % k, bad)
            same(s.rig_camera.id, s.rig_camera_id, "rig camera object of %s" % k, bad)
            same(s.camera.id in rec.cameras, True, "camera of %s exists" % k, bad)
            rows.append((k, s.camera.id, s.rig_camera_id, s.rig_instance_id, tuple(sorted(meta_of(s).items())),
                         cpose(real_pose(s.pose))))
            for lm in s.get_valid_landmarks():
                o = s.get_landmark_observation(lm)
                obs[(k, pano, lm.id)] = obs_tuple(o)
                by_point.setdefault(lm.id, {})[(k, o.id)] = by_point.setdefault(lm.id, {}).get((k, o.id), 0) + 1
                same(s.get_observation_landmark(o.id).id, lm.id, "landmark of feature %d of %s" % (o.id, k), bad)
                same(obs_tuple(s.get_observation(o.id)), obs_tuple(o), "feature %d of %s" % (o.id, k), bad)
                same(lm.id in rec.points, True, "landmark %s seen by %s exists" % (lm.id, k), bad)
        tables.append(tuple(rows))
    pts = []
    for k in views["points"]:
        p = rec.points[k]
        seen = {}
        for shot, fid in p.get_observations().items():
            seen[(shot.id, fid)] = seen.get((shot.id, fid), 0) + 1
        same(seen, by_point.get(k, {}), "observations of point %s" % k, bad)
        same(p.number_of_observations(), sum(by_point.get(k, {}).values()), "number of observations of %s" % k, bad)
        errs = tuple(sorted((s, tuple(np.round(np.ravel(e), 9))) for s, e in p.reprojection_errors.items()))
        pts.append((k, tuple(np.round(p.coordinates, 9)), tuple(int(c) for c in p.color), errs))
        same(m.has_landmark(k), True, "has_landmark(%s)" % k, bad)
    tm = m.to_tracks_manager()
    want = {(s, l): o for (s, pano, l), o in sorted(obs.items(), key=repr)}
    got = {(s, l): obs_tuple(o) for l in tm.get_track_ids() for s, o in tm.get_track_observations(l).items()}
    same(sorted(got), sorted(want), "to_tracks_manager", bad)
    for k in got:
        if k in want and sum(1 for (s, _, l) in obs if (s, l) == k) == 1:
            same(got[k], want[k], "to_tracks_manager %r" % (k,), bad)
    return (cams, bias, rigcams, tuple(insts), tuple(tables), tuple(pts), tuple(sorted(obs.items())))


# ---------------------------------------------------------------- operations on the real scene
def real(rec, op):
    n, a = op[0], op[1:]
    m = rec.map
    if n == "camera":
        rec.add_camera(mk_camera(a[0]))
    elif n == "map_camera":  # the scene graph itself, without the wrapper
        m.create_camera(mk_camera(a[0]))
    elif n == "set_bias":
        rec.set_bias(a[0], mk_bias(a[1]))
    elif n == "rig_camera":
        rec.add_rig_camera(pymap.RigCamera(mk_pose(a[1]), a[0]))
    elif n == "rig_instance":
        rec.add_rig_instance(pymap.RigInstance(a[0])) if a[0] not in rec.rig_instances else None
    elif n == "create_shot":
        rec.create_shot(a[0], a[1], mk_pose(a[4]) if a[4] else None, a[2], a[3])
    elif n == "create_pano":
        rec.create_pano_shot(a[0], a[1], mk_pose(a[2]) if a[2] else None)
    elif n == "remove_shot":
        rec.remove_shot(a[0])
    elif n == "remove_pano":
        rec.remove_pano_shot(a[0])
    elif n == "create_point":
        rec.create_point(a[0], np.array(a[1], float))
    elif n == "remove_point":
        rec.remove_point(a[0])
    elif n == "add_obs":
        rec.add_observation(a[0], a[1], mk_obs(a[0], a[1]))
    elif n == "add_obs_obj":
        m.add_observation(rec.shots[a[0]], rec.points[a[1]], mk_obs(a[0], a[1]))
    elif n == "add_obs_pano":
        m.add_observation(rec.pano_shots[a[0]], rec.points[a[1]], mk_obs(a[0], a[1]))
    elif n == "remove_obs":
        rec.remove_observation(a[0], a[1])
    elif n == "clean":
        m.clean_landmarks_below_min_observations(a[0])
    elif n == "clear":
        m.clear_observations_and_landmarks()
    elif n == "set_inst_pose":
        rec.rig_instances[a[0]].pose = mk_pose(a[1])
    elif n == "set_rigcam_pose":
        rec.rig_cameras[a[0]].pose = mk_pose(a[1])
    elif n == "set_shot_pose":
        rec.shots[a[0]].pose = mk_pose(a[1])
    elif n == "set_pano_pose":
        rec.pano_shots[a[0]].pose = mk_pose(a[1])
    elif n == "inst_pose_with_shot":
        rec.rig_instances[a[0]].update_instance_pose_with_shot(a[1], mk_pose(a[2]))
    elif n == "remove_inst":
        rec.remove_rig_instance(a[0])
    elif n == "meta":
        getattr(rec.shots[a[0]].metadata, a[1]).value = a[2]
    elif n == "color":
        rec.points[a[0]].color = np.array(a[1])
    elif n == "errs":
        rec.points[a[0]].reprojection_errors = {s: np.array(e, float) for s, e in a[1].items()}
    elif n == "move_point":
        rec.points[a[0]].coordinates = np.array(a[1], float)
    else:
        raise AssertionError(n)


def model(mod, op):
    n, a = op[0], op[1:]
    if n == "create_shot":
        mod.create_shot(*a)
    elif n == "create_pano":
        mod.create_shot(a[0], a[1], None, None, a[2] or "id", pano=True)
    elif n == "remove_pano":
        mod.remove_shot(a[0], pano=True)
    elif n == "add_obs_obj":
        mod.add_obs(*a)
    elif n == "add_obs_pano":
        mod.add_obs(a[0], a[1], pano=True)
    elif n == "set_pano_pose":
        mod.set_shot_pose(a[0], a[1], pano=True)
    elif n in ("color", "errs", "move_point"):
        if a[0] not in mod.points:
            raise Invalid
        p = mod.points[a[0]]
        if n == "color":
            p["color"] = tuple(a[1])
        elif n == "errs":
            p["errs"] = {s: tuple(float(x) for x in e) for s, e in a[1].items()}
        else:
            p["xyz"] = tuple(float(x) for x in a[1])
    else:
        getattr(mod, n)(*a)


def legal(mod, op):
    """Operations outside the contract (they would leave dangling members) are not explored."""
    n, a = op[0], op[1:]
    if n == "remove_inst":
        return not mod.members(a[0])
    if n == "errs":
        return a[0] in mod.points and all((s, False, a[0]) in mod.obs for s in a[1])
    return True


def norm_points(c):
    """model canon with numbers in the form of observe()"""
    c = list(c)
    c[5] = tuple((k, tuple(float(x) for x in xyz), col, errs) for k, xyz, col, errs in c[5])
    return tuple(c)


def diff(a, b):
    names = ["cameras", "biases", "rig cameras", "rig instances", "shots", "points", "observations"]
    return "; ".join("%s: %r instead of %r" % (n, x, y) for n, x, y in zip(names, a, b) if x != y)
