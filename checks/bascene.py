"""Scenes for bundle adjustment: truth, reconstruction objects built from it, and a written-out cost."""
import math

import numpy as np
from opensfm import config as oconfig, geo, pygeometry, pymap, types

import c13
from scene import rod

REF = geo.TopocentricConverter(47.0, 8.5, 300.0)
DIST = {"k1": -0.08, "k2": 0.03, "k3": -0.01, "k4": 0.004, "k5": -0.002, "k6": 0.001, "p1": 0.003, "p2": -0.002,
        "s0": 0.002, "s1": -0.001, "s2": -0.002, "s3": 0.001}
PRIOR_SD = {"k1": "radial_distortion_k1_sd", "k2": "radial_distortion_k2_sd", "k3": "radial_distortion_k3_sd", "k4": "radial_distortion_k4_sd",
            "p1": "tangential_distortion_p1_sd", "p2": "tangential_distortion_p2_sd", "focal": "exif_focal_sd",
            "aspect_ratio": "aspect_ratio_sd", "cx": "principal_point_sd", "cy": "principal_point_sd"}


def camera(t, cid="c0", f=0.8, k=None):
    ks = tuple(DIST[n] for n in c13.NAMES[t]) if k is None else k
    aff = t in c13.AFFINE and t != "simple_radial" or t == "simple_radial"
    c = c13.make(t, f, 1.02 if aff else 1.0, (0.01, -0.02) if aff else (0.0, 0.0), ks, 0.5)
    c.id = cid
    c.width, c.height = 1000, 800
    return c


def look(c, target, roll=0.0):
    f = np.array(target, float) - np.array(c, float)
    f /= np.linalg.norm(f)
    r = np.cross(f, [0, 0, 1.0])
    r /= np.linalg.norm(r)
    d = np.cross(f, r)
    R = np.array([r, d, f])
    return rod((0, 0, roll)) @ R


def pose(R, c):
    p = pygeometry.Pose()
    p.set_rotation_matrix(np.asarray(R))
    p.set_origin(np.asarray(c, float))
    return p


POINTS = [np.array(x, float) for x in [(0, 0, 0), (2, 1, 0.5), (-2, 1.5, -0.5), (1, -2, 1), (-1.5, -1, 1.5), (2.5, -1.5, -1), (-2.5, 0, 1), (0.5, 2.5, -1),
                                      (0, -0.5, 2), (1.5, 1.5, 1.5), (-1, 2, 1.2), (-0.5, -2.2, -0.8), (2.2, 0.2, -0.6), (-2, -2, 0.3)]]
RING = [(10, 0, 1), (8, 6, 2.5), (0, 10, -1), (-8, 6, 1), (-9, -3, 3), (2, -10, 0.5)]
LINE = [(-4, -9, 0), (-2, -9.0, 0), (1, -9.0, 0), (3, -9.0, 0), (4.5, -9, 0)]
RIGS = {None: None, "pair": [((0, 0, 0), (0, 0, 0)), ((0.03, -0.1, 0.05), (0.4, -0.1, 0.2))],
        "triple": [((0.02, 0.05, 0), (0.1, 0, 0)), ((0.03, -0.1, 0.05), (0.4, -0.1, 0.2)), ((-0.05, 0.06, 0.4), (-0.5, 0.2, 0.1))]}


class Scene:
    def __init__(self, types_=("perspective",), layout="ring", n=4, rig=None, roll=0.0, points=None, sees=None, level=False):
        base = RING if layout == "ring" else LINE
        self.centers = [np.array(base[i % len(base)], float) + (i // len(base)) * np.array([0.3, -0.2, 0.4]) for i in range(n)]
        if level:
            self.R = [look((0, -1, 0), (0.1 * i - 0.15, 0, 0), roll) for i in range(n)]
        else:
            self.R = [look(c, (0.1 * i, 0.2, 0.1), roll + 0.05 * i) for i, c in enumerate(self.centers)]
        self.types = list(types_)
        self.rig = RIGS[rig]
        self.points = POINTS if points is None else points
        self.cams = [camera(t, "c%d" % j) for j, t in enumerate(self.types)]
        self.shots = []  # (shot id, instance id, instance index, rig camera, camera index)
        for i in range(n):
            if self.rig:
                for j in range(len(self.rig)):
                    self.shots.append(("s%d_%d" % (i, j), "i%d" % i, i, j, j % len(self.cams)))
            else:
                self.shots.append(("s%d" % i, "s%d" % i, i, None, i % len(self.cams)))
        self.sees = sees or (lambda s, p: True)

    def rt(self, shot):
        """world to camera of a shot: R, t"""
        _, _, i, j, _ = shot
        R, t = self.R[i], -self.R[i] @ self.centers[i]
        if j is not None:
            a, b = self.rig[j]
            R, t = rod(a) @ R, rod(a) @ t + np.array(b, float)
        return R, t

    def origin(self, shot):
        R, t = self.rt(shot)
        return -R.T @ t

    def project(self, shot, x):
        R, t = self.rt(shot)
        return np.asarray(self.cams[shot[4]].project(R @ np.asarray(x, float) + t))

    def build(self, move=0.0, noise=0.0, scale=0.004, move_cams=0.0, depth=None, prior_cams=None, move_points=None, move_rigs=0.0):
        """a reconstruction: the truth moved by `move`, with observations of the truth displaced by `noise`"""
        rec = types.Reconstruction()
        rec.reference = REF
        for c in self.cams:
            rec.add_camera(c)
        rcs = {}
        if self.rig:
            for j, (a, b) in enumerate(self.rig):
                w = wob(j, 6) * move_rigs
                rc = pymap.RigCamera(pygeometry.Pose(np.array(a, float) + w[:3], np.array(b, float) + w[3:]), "r%d" % j)
                rec.add_rig_camera(rc)
        for k, s in enumerate(self.shots):
            sid, iid, i, j, c = s
            p = pose(self.R[i] @ rod(wob(i, 3) * 0.1 * move), self.centers[i] + wob(i + 20, 3) * move)
            if j is None:
                rec.create_shot(sid, "c%d" % c, p)
            else:
                if iid not in rec.rig_instances:
                    rec.add_rig_instance(pymap.RigInstance(iid))
                rec.create_shot(sid, "c%d" % c, rig_camera_id="r%d" % j, rig_instance_id=iid)
                rec.rig_instances[iid].pose = p
        mp = move if move_points is None else move_points
        for n, x in enumerate(self.points):
            rec.create_point("p%d" % n, x + wob(n + 40, 3) * mp)
            for k, s in enumerate(self.shots):
                if self.sees(s, n):
                    q = self.project(s, x) + noise * wob(7 * n + 3 * k + 100, 2)
                    o = pymap.Observation(q[0], q[1], scale, 0, 0, 0, n)
                    if depth is not None:
                        d = depth(self, s, n)
                        if d is not None:
                            o.depth_prior = d
                    rec.add_observation(s[0], "p%d" % n, o)
        if move_cams:
            for j, c in rec.cameras.items():
                c.focal = c.focal * (1 + move_cams)
        priors = {c.id: camera(t, c.id) for t, c in zip(self.types, self.cams)} if prior_cams is None else prior_cams
        rp = {i: pymap.RigCamera(pygeometry.Pose(c.pose.rotation, c.pose.translation), i) for i, c in rec.rig_cameras.items()}
        if self.rig:
            for j, (a, b) in enumerate(self.rig):
                rp["r%d" % j] = pymap.RigCamera(pygeometry.Pose(np.array(a, float), np.array(b, float)), "r%d" % j)
        return rec, priors, rp

    def gps(self, rec, which, acc=0.1, err=0.0, origin_of_instance=True):
        for k, s in enumerate(self.shots):
            if which(k):
                sh = rec.shots[s[0]]
                base = self.centers[s[2]] if origin_of_instance else self.origin(s)
                sh.metadata.gps_position.value = base + err * wob(k + 300, 3)
                sh.metadata.gps_accuracy.value = acc

    def gcps(self, positions, sees, altitude=True, noise=0.0, lla=True, shift=0.0):
        out = []
        for k, x in enumerate(positions):
            g = pymap.GroundControlPoint()
            g.id = "g%d" % k
            if lla:
                lat, lon, alt = REF.to_lla(*(np.array(x, float) + shift * wob(k + 500, 3)))
                g.lla = {"latitude": lat, "longitude": lon, "altitude": alt if altitude else 0.0}
                g.has_altitude = altitude
            for n, s in enumerate(self.shots):
                if sees(k, n):
                    o = pymap.GroundControlPointObservation()
                    o.shot_id = s[0]
                    o.projection = self.project(s, x) + noise * wob(k * 11 + n + 700, 2)
                    g.add_observation(o)
            out.append(g)
        return out


def wob(seed, n):
    """a fixed displacement"""
    return np.array([math.sin(12.9898 * (seed + 1) + 4.1414 * (i + 1) * (seed % 7 + 1)) for i in range(n)])


def config(**kw):
    c = oconfig.default_config()
    c.update(kw)
    c["processes"] = 1
    return c


def state(rec):
    """everything bundle adjustment may change"""
    out = {}
    for i, c in rec.cameras.items():
        out["camera", i] = np.array(list(c.get_parameters_values()), float)
    for i, c in rec.rig_cameras.items():
        out["rig camera", i] = np.concatenate([c.pose.get_R_world_to_cam().ravel(), c.pose.translation])
    for i, c in rec.rig_instances.items():
        out["instance", i] = np.concatenate([c.pose.get_R_world_to_cam().ravel(), c.pose.get_origin()])
    for i, p in rec.points.items():
        out["point", i] = np.array(p.coordinates)
    return out


def diff(a, b):
    assert a.keys() == b.keys(), (sorted(a), sorted(b))
    return {k: float(np.abs(a[k] - b[k]).max()) if len(a[k]) else 0.0 for k in a}
