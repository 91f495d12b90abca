"""C42: a bundle adjuster ends at a minimum of the sum of exactly the constraints it was given, over exactly what was left free."""
import itertools
import math

import numpy as np
from opensfm import pybundle, pygeometry, pymap
from scipy.optimize import least_squares
from scipy.spatial.transform import Rotation

import c13
from bascene import camera, wob
from c20 import rho

LEVEL = "exploration"
RULE = ("every constraint kind x every sharing pattern of rig cameras (identity / fixed / adjusted, all partitions among the shots) x fixed instances; every pair of "
        "constraint kinds; losses x thresholds; scale sharing; standard deviation groups; covariances; order of additions; non-trivial: distinct configurations")
ASSUMPTIONS = ["constraints between shots name shots of different rig instances", "heatmaps are quadratic and large enough, so that bicubic interpolation is exact",
               "instances start within about 0.3 rad / 0.5 units of where the constraints want them"]
LOSSES = ["TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss"]
HALF = 0.5


def setup(quick):
    pass


# ---- the written-out problem
def R_of(v):
    x, y, z = float(v[0]), float(v[1]), float(v[2])
    n = x * x + y * y + z * z
    if n < 1e-16:
        a, b = 1.0, 0.5
    else:
        t = math.sqrt(n)
        a, b = math.sin(t) / t, (1 - math.cos(t)) / n
    return np.array([[1 - b * (y * y + z * z), b * x * y - a * z, b * x * z + a * y],
                     [b * x * y + a * z, 1 - b * (x * x + z * z), b * y * z - a * x],
                     [b * x * z - a * y, b * y * z + a * x, 1 - b * (x * x + y * y)]])


def log(R):
    c = (R[0, 0] + R[1, 1] + R[2, 2] - 1) / 2
    if c < -0.9:
        return Rotation.from_matrix(R).as_rotvec()
    v = np.array([R[2, 1] - R[1, 2], R[0, 2] - R[2, 0], R[1, 0] - R[0, 1]]) / 2
    s = math.sqrt(v @ v)
    return v if s < 1e-9 else v * (math.atan2(s, c) / s)


def tukey(s):
    return np.where(s <= 1, (1 - (1 - s) ** 3) / 3, 1 / 3)


def squashed(r, f):
    s = max(float(np.dot(r, r)), 1e-300)
    return np.asarray(r, float) * math.sqrt(float(f(np.array([s]))[0]) / s)


def cauchy(a):
    return lambda s: rho("CauchyLoss", s, a)


def wrap(d):
    return (d + math.pi) % (2 * math.pi) - math.pi


HEAT = {"w": 40, "h": 30, "res": 0.5}


def heat_value(row, col):
    return 0.4 + 0.02 * (row - 13.0) ** 2 + 0.03 * (col - 22.0) ** 2 + 0.01 * (row - 13.0) * (col - 22.0)


# true places: camera to world rotation vectors and positions of instances
TRUE_R = [np.array([-1.4, 0.1, 0.1]), np.array([-1.5, -0.1, 0.2]), np.array([-1.3, 0.2, -0.15]), np.array([-1.45, -0.05, 0.3])]
TRUE_T = [np.array([0, 0, 1.0]), np.array([2.0, 0.3, 1.2]), np.array([4.1, -0.2, 0.9]), np.array([5.5, 0.4, 1.1])]
RIG = {"ra": (np.array([0.1, -0.05, 0.2]), np.array([0.2, 0.1, -0.1])), "rb": (np.array([-0.2, 0.1, 0.1]), np.array([-0.1, 0.3, 0.2])),
       "rc": (np.array([0.05, 0.3, -0.1]), np.array([0.3, -0.2, 0.1]))}
POINTS = [np.array(p, float) for p in [(1, 6, 1), (2.5, 7, 2), (3.5, 6.5, 0.2), (0.2, 8, 1.5), (4.5, 7.5, 1.8), (2, 5.5, 0)]]


class Prob:
    """rigs: list of (rig camera name, kind) per shot s0.. (one shot per instance); kind: id, fix, free, freeid"""

    def __init__(self, terms, rigs=(("ra", "id"), ("ra", "id"), ("ra", "id")), fixed=(), move=0.15, loss=("SoftLOneLoss", 1.0), motion_loss=("CauchyLoss", 1.0),
                 points=(), fixed_points=(), cam="perspective", cam_free=False, analytic=False, adjust=False, recs=None, extra=(), sds=None, max_iter=500, cam_shift=0.0):
        self.terms, self.fixed, self.loss, self.motion_loss, self.adjust, self.analytic = terms, set(fixed), loss, motion_loss, adjust, analytic
        self.max_iter = max_iter
        self.rigkind = {}
        for name, kind in list(rigs) + [(r, k) for _, r, k in extra]:
            self.rigkind[name] = kind
        self.shots = {"s%d" % i: (i, name) for i, (name, _) in enumerate(rigs)}
        for n, (i, r, _) in enumerate(extra):
            self.shots["x%d" % n] = (i, r)
        n = len(rigs)
        self.n = n
        self.inst = [(R_of(TRUE_R[i]) @ R_of(move * wob(i, 3)), TRUE_T[i] + 2 * move * wob(i + 10, 3)) for i in range(n)]
        self.rig = {}
        self.rig_prior = {}
        for name, kind in self.rigkind.items():
            r, b = RIG[name] if kind in ("fix", "free") else (np.zeros(3), np.zeros(3))
            self.rig[name] = (r, b)
            self.rig_prior[name] = (r + 0.02, b - 0.03) if kind in ("free", "freeid") else (r, b)
        self.points = {"p%d" % k: POINTS[k] + move * wob(k + 30, 3) for k in points}
        self.fixed_points = {"p%d" % k for k in fixed_points}
        self.cam = camera(cam, "c")
        self.cam_prior = camera(cam, "c")
        if cam_free:
            v = self.cam_prior.get_parameters_values()
            v = np.array(v) + cam_shift * wob(5, len(v))
            self.cam_prior.set_parameters_values(v)
        self.cam_free = cam_free
        self.cam_sd = [0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01, 0.01] if sds is None else sds
        self.late = False
        self.recs = recs or {}  # reconstruction id -> (constant, shared, {instance: scale})
        self.true_rig = dict(self.rig)

    # -- the real thing
    def build(self, order=None, covariances=False):
        ba = pybundle.BundleAdjuster()
        def tell():
            ba.set_internal_parameters_prior_sd(*self.cam_sd)
        if not self.late:
            tell()
        ba.add_camera("c", self.cam, self.cam_prior, not self.cam_free)
        for name, kind in sorted(self.rigkind.items()):
            def p(x):
                q = pygeometry.Pose()
                q.set_from_cam_to_world(x[0], x[1])
                return q
            ba.add_rig_camera(name, p(self.rig[name]), p(self.rig_prior[name]), kind in ("id", "fix"))
        for i, (R, t) in enumerate(self.inst):
            q = pygeometry.Pose()
            q.set_from_cam_to_world(log(R), t)
            mine = {s: r for s, (k, r) in self.shots.items() if k == i}
            ba.add_rig_instance("i%d" % i, q, {s: "c" for s in mine}, mine, i in self.fixed)
        for pid, x in self.points.items():
            ba.add_point(pid, x, pid in self.fixed_points)
        for rid, (constant, shared, scales) in self.recs.items():
            ba.add_reconstruction(rid, constant)
            for iid, s in scales.items():
                ba.add_reconstruction_instance(rid, s, "i%d" % iid)
            ba.set_scale_sharing(rid, shared)
        if self.late:
            tell()
        ba.set_point_projection_loss_function(*self.loss)
        ba.set_relative_motion_loss_function(*self.motion_loss)
        ba.set_adjust_absolute_position_std(self.adjust)
        ba.set_use_analytic_derivatives(self.analytic)
        ba.set_max_num_iterations(self.max_iter)
        ba.set_compute_covariances(covariances)
        for k in order or range(len(self.terms)):
            self.add(ba, self.terms[k])
        return ba

    def add(self, ba, term):
        k, a = term[0], term[1:]
        if k == "up":
            ba.add_absolute_up_vector(a[0], np.array(a[1], float), a[2])
        elif k in ("pan", "tilt", "roll"):
            getattr(ba, "add_absolute_" + k)(*a)
        elif k == "heat":
            if not getattr(ba, "_heat", None):
                vals = [float(heat_value(r, c)) for r in range(HEAT["h"]) for c in range(HEAT["w"])]
                ba.add_heatmap("h", vals, HEAT["w"], HEAT["res"])
            ba.add_absolute_position_heatmap(a[0], "h", a[1], a[2], a[3])
        elif k == "relrot":
            r = pybundle.RelativeRotation(a[0], a[1], np.array(a[2], float))
            if a[3] is not None:
                r.set_scale_matrix(np.array(a[3], float))
            ba.add_relative_rotation(r)
        elif k == "relmotion":
            i, j, rot, tr, s, mult, seen, scale = a
            r = pybundle.RelativeMotion("i%d" % i, "i%d" % j, np.array(rot, float), np.array(tr, float), s, mult, seen)
            if scale is not None:
                r.set_scale_matrix(np.array(scale, float))
            ba.add_relative_motion(r)
        elif k == "common":
            ba.add_common_position(*a)
        elif k == "linear":
            ba.add_linear_motion(*a)
        elif k == "gauge":
            ba.set_gauge_fix_shots(a[0], a[1])
        elif k == "pos":
            ba.add_rig_instance_position_prior("i%d" % a[0], np.array(a[1], float), np.array(a[2], float), a[3])
        elif k == "pprior":
            ba.add_point_prior(a[0], np.array(a[1], float), np.array(a[2], float), a[3])
        elif k == "proj":
            if a[4] is None:
                ba.add_point_projection_observation(a[0], a[1], np.array(a[2], float), a[3])
            else:
                ba.add_point_projection_observation(a[0], a[1], np.array(a[2], float), a[3], pymap.Depth(*a[4]))
        else:
            raise KeyError(k)

    # -- the written-out cost
    def free_instances(self):
        fixed = set(self.fixed)
        for t in self.terms:
            if t[0] == "gauge":
                fixed.add(self.shots[t[1]][0])
        return [i for i in range(self.n) if i not in fixed]

    def groups(self):
        return sorted({t[4] for t in self.terms if t[0] == "pos"})

    def scale_slots(self):
        out = []
        for rid, (constant, shared, scales) in sorted(self.recs.items()):
            if constant:
                continue
            out += [(rid, min("i%d" % i for i in scales))] if shared else [(rid, "i%d" % i) for i in sorted(scales)]
        return out

    def start_state(self):
        scales = {}
        for rid, (_, shared, sc) in self.recs.items():
            first = sc[min(sc)] if sc else None
            for i, s in sc.items():
                scales[rid, "i%d" % i] = first if shared else s
        return {"inst": list(self.inst), "rig": dict(self.rig), "points": dict(self.points), "scales": scales, "cam": self.cam.get_parameters_values()}

    def read(self, ba):
        inst = []
        for i in range(self.n):
            p = ba.get_rig_instance_pose("i%d" % i)
            inst.append((p.get_R_cam_to_world(), p.get_origin()))
        rig = {}
        for name in self.rigkind:
            p = ba.get_rig_camera_pose(name)
            rig[name] = (np.array(p.get_R_cam_to_world_min()), np.array(p.get_origin()))
        scales = {(rid, "i%d" % i): ba.get_reconstruction(rid).get_scale("i%d" % i) for rid, r in self.recs.items() for i in r[2]}
        return {"inst": inst, "rig": rig, "points": {p: np.array(ba.get_point(p).p) for p in self.points}, "scales": scales,
                "cam": ba.get_camera("c").get_parameters_values()}

    def residuals(self, st):
        """(function of x, x at st)"""
        free = self.free_instances()
        rigs = sorted(n for n, k in self.rigkind.items() if k in ("free", "freeid"))
        pts = sorted(p for p in self.points if p not in self.fixed_points)
        slots = self.scale_slots()
        groups = self.groups() if self.adjust else []
        x0 = [0.0] * 6 * len(free)
        for n in rigs:
            x0 += list(st["rig"][n][0]) + list(st["rig"][n][1])
        for p in pts:
            x0 += list(st["points"][p])
        x0 += [st["scales"][s] for s in slots]
        if self.cam_free:
            x0 += list(st["cam"])
        n_vis = len(x0)
        x0 += [0.0] * len(groups)
        names = [str(p).split(".")[-1].lower() for p in self.cam.get_parameters_types()]
        prior = self.cam_prior.get_parameters_values()
        sdmap = dict(zip(("focal", "aspect", "c", "k1", "k2", "p1", "p2", "k3", "k4"), self.cam_sd))
        adjusted = set(sdmap) | {"cx", "cy", "aspectratio", "aspect_ratio", "transition"}

        def f(x):
            out = []
            k = 0
            inst = list(st["inst"])
            for i in free:
                inst[i] = (st["inst"][i][0] @ R_of(x[k:k + 3]), st["inst"][i][1] + x[k + 3:k + 6])
                k += 6
            rig = dict(st["rig"])
            for n in rigs:
                rig[n] = (x[k:k + 3], x[k + 3:k + 6])
                out += [x[k:k + 3] - self.rig_prior[n][0], x[k + 3:k + 6] - self.rig_prior[n][1]]
                k += 6
            point = dict(st["points"])
            for p in pts:
                point[p] = x[k:k + 3]
                k += 3
            scales = dict(st["scales"])
            for rid, first in slots:
                if self.recs[rid][1]:
                    for i in self.recs[rid][2]:
                        scales[rid, "i%d" % i] = x[k]
                else:
                    scales[rid, first] = x[k]
                k += 1
            cam = self.cam
            if self.cam_free:
                v = np.array(x[k:k + len(prior)])
                k += len(prior)
                for j, n in enumerate(names):
                    if n not in adjusted:
                        v[j] = prior[j]
                cam = camera(self.cam.projection_type, "c")
                cam.set_parameters_values(v)
                for n, a, b in zip(names, v, prior):
                    if n == "focal":
                        out.append([math.log(a / b) / sdmap["focal"]])
                    elif n in ("aspectratio", "aspect_ratio"):
                        out.append([math.log(a / b) / sdmap["aspect"]])
                    elif n in ("cx", "cy"):
                        out.append([(a - b) / sdmap["c"]])
                    elif n in sdmap:
                        out.append([(a - b) / sdmap[n]])
            sig = {}
            for g in groups:
                sig[g] = math.exp(x[k])
                out.append([-0.5 * math.log(2 * math.pi) - x[k]])
                k += 1

            def shot(s):
                i, r = self.shots[s]
                R, t = inst[i]
                a, b = rig[r]
                return R @ R_of(a), t + R @ b

            for term in self.terms:
                out.append(self.term(term, inst, shot, point, scales, cam, sig))
            return np.concatenate([np.ravel(o) for o in out]) if out else np.zeros(1)
        return f, np.array(x0), n_vis

    def term(self, term, inst, shot, point, scales, cam, sig):
        k, a = term[0], term[1:]
        if k == "up":
            if not a[2] > 0:
                return []
            u = np.array(a[1], float)
            return squashed((shot(a[0])[0] @ (u / np.linalg.norm(u)) - [0, 0, 1]) / a[2], cauchy(1))
        if k in ("pan", "tilt", "roll"):
            if not a[2] > 0:
                return []
            R = shot(a[0])[0]
            z, e = R[:, 2], R[:, 0]
            if k == "pan":
                v = math.atan2(z[0], z[1])
            elif k == "tilt":
                v = -math.atan2(z[2], math.hypot(z[0], z[1]))
            else:
                h = np.array([z[1], -z[0], 0]) / math.hypot(z[0], z[1])
                v = math.asin(np.clip(np.dot(z, np.cross(e, h)), -1, 1))
            return squashed([wrap(v - a[1]) / a[2]], cauchy(1))
        if k == "heat":
            c = shot(a[0])[1]
            return [heat_value(HEAT["h"] / 2 - (c[1] - a[2]) / HEAT["res"], HEAT["w"] / 2 + (c[0] - a[1]) / HEAT["res"]) / a[3]]
        if k == "relrot":
            r = log(R_of(a[2]) @ shot(a[0])[0].T @ shot(a[1])[0])
            if a[3] is not None:
                r = np.array(a[3]) @ r
            return squashed(r, lambda s: rho(self.motion_loss[0], s, self.motion_loss[1]))
        if k == "relmotion":
            i, j, rot, tr, s, mult, seen, sm = a
            (Ri, ti), (Rj, tj) = inst[i], inst[j]
            si = [v for (r, q), v in scales.items() if q == "i%d" % i][0]
            sj = [v for (r, q), v in scales.items() if q == "i%d" % j][0]
            r = np.concatenate([log(R_of(rot) @ Ri.T @ Rj), np.array(tr) - sj * Rj.T @ (ti - tj), [s - sj / si if seen else 0.0]])
            if sm is not None:
                r = np.array(sm) @ r
            return squashed(r, lambda q: rho(self.motion_loss[0], q, self.motion_loss[1] * mult))
        if k == "common":
            e = shot(a[0])[1] - shot(a[1])[1]
            e = np.array([max(0, abs(e[0]) - a[2]), max(0, abs(e[1]) - a[2]), e[2]])
            return squashed(e / a[3], tukey)
        if k == "linear":
            (R0, c0), (R1, c1), (R2, c2) = shot(a[0]), shot(a[1]), shot(a[2])
            d = a[3] - np.linalg.norm(c1 - c0) / np.linalg.norm(c2 - c0)
            r = log(R_of(a[3] * log(R2 @ R0.T)) @ R0 @ R1.T)
            return squashed(np.concatenate([[d / a[4]] * 3, r / a[5]]), cauchy(1))
        if k == "gauge":
            i, j = self.shots[a[0]][0], self.shots[a[1]][0]
            n0 = np.linalg.norm(self.inst[i][1] - self.inst[j][1])
            return [math.log(np.linalg.norm(inst[i][1] - inst[j][1]) / n0)]
        if k == "pos":
            return (inst[a[0]][1] - np.array(a[1])) / np.array(a[2]) / (sig[a[3]] if sig else 1.0)
        if k == "pprior":
            r = (point[a[0]] - np.array(a[1])) / np.array(a[2])
            return r if a[3] else r[:2]
        if k == "proj":
            R, c = shot(a[0])
            q = R.T @ (point[a[1]] - c)
            if cam.projection_type == "spherical":
                r = q / np.linalg.norm(q) - cam.pixel_bearing(np.array(a[2]))
            else:
                r = cam.project(q) - np.array(a[2])
            f = lambda s: rho(self.loss[0], s, self.loss[1])
            out = [squashed(np.asarray(r) / a[3], f)]
            if a[4] is not None:
                radial, value, sd = a[4][1], a[4][0], a[4][2]
                out.append(squashed([((np.linalg.norm(q) if radial else q[2]) - value) / sd], f))
            return np.concatenate(out)


def jac(f, x, r):
    J = np.empty((len(r), len(x)))
    for k in range(len(x)):
        h = 1e-6 * max(1.0, abs(x[k]))
        y = x.copy()
        y[k] += h
        z = x.copy()
        z[k] -= h
        J[:, k] = (f(y) - f(z)) / (2 * h)
    return J


def descend(f, x, r, tol, radius=0.05, rounds=4):
    """the lowest cost found by a few short damped Gauss-Newton steps"""
    x, c = x.copy(), HALF * float(r @ r)
    start = c
    for _ in range(rounds):
        J = jac(f, x, r)
        g, H = J.T @ r, J.T @ J
        lam = 1e-6 * max(1e-12, np.trace(H) / len(x))
        for _ in range(40):
            step = np.linalg.solve(H + lam * np.eye(len(x)), -g)
            if np.linalg.norm(step) <= radius:
                break
            lam *= 3
        if -0.5 * float(g @ step) < 0.1 * tol * start:
            break
        for _ in range(4):
            q = f(x + step)
            d = HALF * float(q @ q)
            if d < c:
                break
            step = step / 3
        if d >= c:
            break
        x, r, c = x + step, q, d
        if start - c > tol * start:
            break
    return c, x


def settle(f, x, n_vis):
    """put the values nobody can read at their best"""
    if len(x) == n_vis:
        return x
    sub = least_squares(lambda y: f(np.concatenate([x[:n_vis], y])), x[n_vis:], xtol=1e-14, ftol=1e-14, gtol=1e-14)
    return np.concatenate([x[:n_vis], sub.x])


def optimal(ck, key, what, P, st, reachable=None, tol=2e-3):
    """no frozen value moved, the cost went down, and no lower cost is to be found nearby"""
    start = P.start_state()
    frozen = [("instance %d" % i, np.abs(np.concatenate([start["inst"][i][0].ravel() - st["inst"][i][0].ravel(), start["inst"][i][1] - st["inst"][i][1]])).max())
              for i in range(P.n) if i not in P.free_instances()]
    frozen += [("rig camera " + n, np.abs(np.concatenate(st["rig"][n]) - np.concatenate(start["rig"][n])).max()) for n, k in P.rigkind.items() if k in ("id", "fix")]
    frozen += [(p, np.abs(st["points"][p] - start["points"][p]).max()) for p in P.fixed_points]
    frozen += [("scale %s" % (s,), abs(st["scales"][s] - start["scales"][s])) for s in st["scales"] if P.recs[s[0]][0]]
    if not P.cam_free:
        frozen.append(("camera", np.abs(st["cam"] - start["cam"]).max()))
    for n, d in frozen:
        if d > 1e-9:
            ck.fail(key, "%s: %s was to stay and moved by %g" % (what, n, d))
            return None
    f, x, n_vis = P.residuals(st)
    x = settle(f, x, n_vis)
    r = f(x)
    c = HALF * float(r @ r)
    g, y, _ = P.residuals(start)
    y = settle(g, y, n_vis)
    r0 = g(y)
    c0 = HALF * float(r0 @ r0)
    if not np.isfinite(c) or c > c0 * (1 + 1e-9) + 1e-12:
        ck.fail(key, "%s: the cost went from %g to %g" % (what, c0, c))
        return None
    if reachable is not None and c > reachable:
        ck.fail(key, "%s: the constraints can all be met, the cost stays %g (from %g)" % (what, c, c0))
        return None
    if c > 1e-9 and len(x):
        best, y = descend(f, x, r, tol)
        if c - best > tol * c:
            k = int(np.argmax(np.abs(y - x)))
            ck.fail(key, "%s: the cost is %g, %g is possible nearby (value %d of %d: %g instead of %g)" % (what, c, best, k, len(x), y[k], x[k]))
            return None
    ck.transition()
    return c, c0


def solve(ck, key, what, P, reachable=None, tol=2e-3):
    ba = P.build()
    ba.run()
    st = P.read(ba)
    ck.ev(1)
    ok = optimal(ck, key, what, P, st, reachable, tol)
    return None if ok is None else (ba, st, ok)


# ---- the constraint kinds
def true_shot(rigs, s):
    i = int(s[1:])
    name, kind = rigs[i]
    R, t = R_of(TRUE_R[i]), TRUE_T[i]
    if kind in ("fix", "free"):
        a, b = RIG[name]
        return R @ R_of(a), t + R @ b
    return R, t


def pos_terms(n, sd=0.5, which=None):
    return [("pos", i, TRUE_T[i], [sd, sd * 1.2, sd * 0.8], "") for i in range(n) if which is None or i in which]


def base(rigs, sd=0.5, turn=0.5):
    """weak constraints that determine every instance"""
    out = pos_terms(len(rigs), sd)
    for i in range(len(rigs)):
        p, t, r = angles(true_shot(rigs, "s%d" % i)[0])
        out += [("pan", "s%d" % i, p, turn), ("tilt", "s%d" % i, t, turn * 1.1), ("roll", "s%d" % i, r, turn * 0.9)]
    return out


def angles(R):
    z, e = R[:, 2], R[:, 0]
    h = np.array([z[1], -z[0], 0]) / math.hypot(z[0], z[1])
    return math.atan2(z[0], z[1]), -math.atan2(z[2], math.hypot(z[0], z[1])), math.asin(np.dot(z, np.cross(e, h)))


def tilted(rigs):
    """every constraint kind with the values the true places have, by name"""
    S = {"s%d" % i: true_shot(rigs, "s%d" % i) for i in range(len(rigs))}
    R0, R1, R2 = S["s0"][0], S["s1"][0], S["s2"][0]
    I = [(R_of(TRUE_R[i]), TRUE_T[i]) for i in range(len(rigs))]
    c0 = S["s0"][1]
    hc = (c0[0] - (22.0 - HEAT["w"] / 2) * HEAT["res"], c0[1] - (HEAT["h"] / 2 - 13.0) * HEAT["res"])
    out = {
        "up": [("up", "s0", R0.T @ [0, 0, 1.0] * 3.0, 0.1)],
        "up weak": [("up", "s1", R1.T @ [0, 0, 1.0], 0.8)],
        "pan": [("pan", "s0", angles(R0)[0], 0.1)],
        "pan turned": [("pan", "s1", angles(R1)[0] + 2 * math.pi, 0.2)],
        "tilt": [("tilt", "s1", angles(R1)[1], 0.1)],
        "roll": [("roll", "s0", angles(R0)[2], 0.1)],
        "angles": [("pan", "s2", angles(R2)[0], 0.1), ("tilt", "s2", angles(R2)[1], 0.15), ("roll", "s2", angles(R2)[2], 0.2)],
        "heat": [("heat", "s0", hc[0], hc[1], 0.5)],
        "relrot": [("relrot", "s0", "s1", log(R1.T @ R0), None)],
        "relrot scaled": [("relrot", "s2", "s0", log(R0.T @ R2), [[4, 0.5, 0], [0, 3, 0.2], [0.1, 0, 5]])],
        "common": [("common", "s0", "s1", 0.1, 1.6)],
        "common tight": [("common", "s1", "s2", 0.0, 2.5)],
        "linear": [("linear", "s0", "s1", "s2", 0.5, 0.1, 0.2)],
        "linear late": [("linear", "s1", "s2", "s0", 0.9, 0.2, 0.1)],
        "gauge": [("gauge", "s0", "s2")],
        "relmotion": [("relmotion", 0, 1, log(I[1][0].T @ I[0][0]), I[1][0].T @ (I[0][1] - I[1][1]), 1.0, 1.0, False, None)],
    }
    return out


def off(terms):
    """the same constraints asking for something else"""
    out = []
    for n, t in enumerate(terms):
        t = list(t)
        if t[0] == "up":
            t[2] = np.array(t[2]) + np.linalg.norm(t[2]) * 0.1 * wob(n, 3)
        elif t[0] in ("pan", "tilt", "roll"):
            t[2] += 0.1
        elif t[0] == "heat":
            t[2] += 0.3
            t[3] -= 0.2
        elif t[0] == "relrot":
            t[3] = t[3] + 0.1 * wob(n, 3)
        elif t[0] == "relmotion":
            t[3] = t[3] + 0.1 * wob(n, 3)
            t[4] = t[4] + 0.3 * wob(n + 3, 3)
        elif t[0] == "linear":
            t[4] += 0.1
        out.append(tuple(t))
    return out


PARTITIONS = [("ra", "ra", "ra"), ("ra", "ra", "rb"), ("ra", "rb", "ra"), ("rb", "ra", "ra"), ("ra", "rb", "rc")]
KINDS = ["id", "fix", "free", "freeid"]


def patterns(quick):
    out = []
    for part in PARTITIONS:
        names = sorted(set(part))
        for kinds in itertools.product(KINDS, repeat=len(names)):
            m = dict(zip(names, kinds))
            out.append([(n, m[n]) for n in part])
    return out


TERMS = list(tilted([("ra", "id")] * 3))
NEEDS = {"relmotion": {"R": (False, True, {0: 1.0, 1: 1.0, 2: 1.0})}}


def cases(ck):
    q = ck.quick
    out = []
    for t in TERMS:
        out.append({"part": "single", "term": t})
    for a in range(len(TERMS)):
        out.append({"part": "pairs", "a": a})
    for loss in LOSSES:
        out.append({"part": "losses", "loss": loss})
    for t in c13.NK:
        out.append({"part": "points", "type": t})
        out.append({"part": "sds", "type": t})
    for s in (True, False):
        out.append({"part": "scales", "shared": s})
    out += [{"part": "groups"}, {"part": "covariance", "rig": False}, {"part": "covariance", "rig": True}, {"part": "orders"}, {"part": "refuse"}]
    return out


def check(ck, case):
    globals()["p_" + case["part"]](ck, case)


def describe(rigs):
    return "/".join("%s:%s" % r for r in rigs)


def p_single(ck, case):
    name = case["term"]
    ps = patterns(ck.quick)
    for n, rigs in enumerate(ps):
        for fixed, wants in itertools.product(((), (1,), (0, 2)), (False, True)):
            if ck.quick and (n + len(fixed) + wants) % 4 and not (name.startswith("linear") and not fixed and wants):
                continue
            if True:
                terms = base(rigs) + tilted(rigs)[name]
                if wants:
                    terms = off(terms)
                P = Prob(terms, rigs, fixed=fixed, recs=NEEDS.get(name))
                what = "%s%s, rig cameras %s, fixed instances %s" % (name, " (elsewhere)" if wants else "", describe(rigs), fixed)
                r = solve(ck, "single", what, P)
                if r is None:
                    return
                ck.outcome((name, describe(rigs), fixed, wants))
                _, st, (c, c0) = r
                if not fixed and not wants and name not in ("common", "common tight", "linear", "linear late", "gauge", "heat") and all(k in ("id", "fix") for _, k in rigs) and c > 1e-6:
                    ck.fail("single", "%s: everything asked for can be had, the cost stays %g" % (what, c))
                    return
    ck.sample((name, "minimum reached for every pattern of rig cameras"))


def p_pairs(ck, case):
    a = TERMS[case["a"]]
    pats = [[("ra", "id")] * 3, [("ra", "fix"), ("rb", "free"), ("ra", "fix")], [("ra", "free"), ("ra", "free"), ("rb", "freeid")]]
    for b in TERMS[case["a"]:]:
        for n, rigs in enumerate(pats):
            for wants in (False, True):
                if ck.quick and (n + wants) % 2:
                    continue
                T = tilted(rigs)
                terms = base(rigs) + T[a] + off(T[b] if a != b else T[b])
                if wants:
                    terms = off(terms)
                recs = NEEDS["relmotion"] if "relmotion" in (a, b) else None
                P = Prob(terms, rigs, recs=recs, fixed=(2,) if n == 2 else ())
                if solve(ck, "pairs", "%s with %s%s, rig cameras %s" % (a, b, " (elsewhere)" if wants else "", describe(rigs)), P) is None:
                    return
                ck.outcome((a, b, n, wants))
    ck.sample((a, "with every other constraint"))


def motions(n, links, mult=1.0, seen=False, scale=None, s=1.0, err=0.0):
    out = []
    for k, (i, j) in enumerate(links):
        Ri, Rj = R_of(TRUE_R[i]), R_of(TRUE_R[j])
        out.append(("relmotion", i, j, log(Rj.T @ Ri) + err * wob(k + 60, 3), s * (Rj.T @ (TRUE_T[i] - TRUE_T[j])) + 2 * err * wob(k + 70, 3), s, mult, seen, scale))
    return out


def seen_points(rigs, cam, which, err=0.004, sd=0.004, depth=False):
    c = camera(cam, "c")
    out = []
    for i in range(len(rigs)):
        R, t = true_shot(rigs, "s%d" % i)
        for k in which:
            q = R.T @ (POINTS[k] - t)
            z = np.asarray(c.project(q)) + err * wob(5 * i + k + 80, 2)
            d = None
            if depth and (i + k) % 3 == 0:
                d = (float(np.linalg.norm(q)) + 0.1, True, 0.2)
            elif depth and (i + k) % 3 == 1:
                d = (float(q[2]) - 0.1, False, 0.3)
            out.append(("proj", "s%d" % i, "p%d" % k, z, sd * (1 + 0.1 * k), d))
    return out


def p_losses(ck, case):
    name = case["loss"]
    rigs = [("ra", "id"), ("ra", "id"), ("rb", "fix")]
    for a in (0.2, 1.0, 3.0):
        for mult in (0.3, 1.0, 4.0):
            for err in (0.02, 0.2):
                recs = {"R": (False, True, {0: 1.0, 1: 1.0, 2: 1.0})}
                terms = pos_terms(3, 0.3) + motions(3, [(0, 1), (1, 2), (2, 0)], mult, err=err, scale=None)
                P = Prob(terms, rigs, motion_loss=(name, a), recs=recs)
                if solve(ck, "losses", "relative motions, %s %g x %g, errors %g" % (name, a, mult, err), P, tol=3e-3) is None:
                    return
                ck.outcome((name, a, mult, err))
        for err in (0.02, 0.2):
            T = tilted(rigs)
            terms = pos_terms(3, 0.3) + off(T["relrot scaled"]) + off(off(T["relrot"]))
            P = Prob(terms, rigs, motion_loss=(name, a))
            if solve(ck, "losses", "relative rotations, %s %g" % (name, a), P) is None:
                return
            terms = pos_terms(3, 0.3) + seen_points(rigs, "perspective", range(6), err=err * 0.1)
            P = Prob(terms, rigs, loss=(name, a), points=range(6), move=0.03)
            if solve(ck, "losses", "projections, %s %g" % (name, a), P) is None:
                return
            ck.outcome((name, a, err))
    ck.sample((name, "optimal"))


def p_points(ck, case):
    cam = case["type"]
    rig_list = [[("ra", "id")] * 3, [("ra", "fix"), ("rb", "free"), ("rc", "fix")]]
    for rigs, free, analytic, prior, depth in itertools.product(rig_list, (False, True), (False, True), (None, True, False), (False, True)):
        if cam == "dual" and free:
            continue
        terms = pos_terms(3, 0.2) + seen_points(rigs, cam, range(6), depth=depth)
        if prior is not None:
            terms += [("pprior", "p%d" % k, POINTS[k] + 0.2 * wob(k + 90, 3), [0.1, 0.2, 0.3], prior) for k in range(0, 6, 2)]
        P = Prob(terms, rigs, loss=("SoftLOneLoss", 1.0), points=range(6), fixed_points=(1,) if prior else (), cam=cam, cam_free=free, analytic=analytic, move=0.02)
        what = "%s camera%s, rig cameras %s, %s derivatives, point priors %s, depth priors %s" % (
            cam, " adjusted" if free else "", describe(rigs), "analytic" if analytic else "automatic", {None: "none", True: "with altitude", False: "flat"}[prior], depth)
        r = solve(ck, "points", what, P, tol=1e-2 if free else 3e-3)
        if r is None:
            return
        ba, st, _ = r
        ck.outcome((cam, len({x for x in rigs}), free, analytic, prior, depth))
        # the errors reported are those of the end
        c = ba.get_camera("c")
        for t in terms:
            if t[0] != "proj":
                continue
            i, rn = P.shots[t[1]]
            R, o = st["inst"][i]
            a, b = st["rig"][rn]
            q = (R @ R_of(a)).T @ (st["points"][t[2]] - o - R @ b)
            if cam == "spherical":
                e = q / np.linalg.norm(q) - c.pixel_bearing(np.asarray(t[3]))
            else:
                e = np.asarray(c.project(q)) - t[3]
            got = np.asarray(ba.get_point(t[2]).reprojection_errors[t[1]])
            if got.shape != np.shape(e) or np.abs(np.abs(got) - np.abs(e)).max() > 1e-7 or (np.abs(got - e).max() > 1e-7 and np.abs(got + e).max() > 1e-7):
                ck.fail("points", "%s: reported error of %s in %s is %s, not %s" % (what, t[2], t[1], got, e))
                return
    ck.sample((cam, "optimal, errors reported"))


def p_sds(ck, case):
    """how far lens and rig may be from what is known of them"""
    cam = case["type"]
    rigs = [("ra", "free"), ("rb", "free"), ("ra", "free")]
    sds = [0.004, 0.006, 0.01, 0.02, 0.03, 0.005, 0.05, 0.015, 0.008]
    for turn, late in itertools.product(range(0, 9, 2), (False, True)):
        terms = pos_terms(3, 0.2) + seen_points(rigs, cam, range(6), depth=False)
        P = Prob(terms, rigs, loss=("TrivialLoss", 1.0), points=range(6), cam=cam, cam_free=cam != "dual", move=0.02, sds=sds[turn:] + sds[:turn], cam_shift=0.0 if cam == "dual" else 0.01)
        P.late = late
        what = "%s camera, standard deviations %s%s" % (cam, P.cam_sd, ", told last" if late else "")
        if solve(ck, "sds", what, P, tol=3e-3) is None:
            return
        ck.outcome((cam, turn, late))


def p_scales(ck, case):
    shared = case["shared"]
    rigs = [("ra", "id")] * 4
    layouts = {"one": {"R": {0: 1.3, 1: 1.5, 2: 0.8, 3: 1.1}}, "two": {"A": {0: 1.3, 1: 1.6}, "B": {2: 0.8, 3: 1.2}},
               "three": {"A": {0: 1.2}, "B": {1: 0.9, 3: 1.1}, "C": {2: 1.0}}}
    for lname, lay in layouts.items():
        for const in itertools.product((False, True), repeat=len(lay)):
            for seen, s, scale, err in itertools.product((False, True), (1.0, 2.0), (None, "m"), (0.0, 0.05)):
                if ck.quick and (seen + (s > 1) + (scale is None) + (err > 0) + sum(const)) % 2:
                    continue
                m = None
                if scale:
                    m = np.diag([3.0, 2.0, 4.0, 5.0, 3.0, 2.0, 6.0])
                    m[0, 4] = 0.5
                    m[6, 1] = -0.3
                links = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
                terms = pos_terms(4, 0.3) + motions(4, links, 1.0, seen, m, s, err)
                recs = {r: (c, shared, sc) for (r, sc), c in zip(lay.items(), const)}
                P = Prob(terms, rigs, recs=recs, motion_loss=("SoftLOneLoss", 1.0))
                what = "relative motions of scale %g%s, reconstructions %s constant %s, scales %s, %s matrix, errors %g" % (
                    s, " (observed)" if seen else "", lname, const, "shared" if shared else "apart", scale, err)
                r = solve(ck, "scales", what, P, tol=3e-3)
                if r is None:
                    return
                st = r[1]
                for rid, (c, sh, sc) in recs.items():
                    vals = [st["scales"][rid, "i%d" % i] for i in sc]
                    if sh and max(vals) - min(vals) > 1e-12:
                        ck.fail("scales", "%s: shared scales differ: %s" % (what, vals))
                        return
                ck.outcome((shared, lname, const, seen, s, scale, err))
    ck.sample((shared, "optimal"))


def p_groups(ck, case):
    rigs = [("ra", "id")] * 4
    for names in itertools.product(("", "g", "h"), repeat=4):
        for adjust in (False, True):
            for push in (0.05, 1.0):
                terms = []
                for i in range(4):
                    terms.append(("pos", i, TRUE_T[i] + push * wob(i + 200, 3), [0.5, 0.4, 0.3] if i % 2 else [0.2, 0.3, 0.4], names[i]))
                terms += motions(4, [(0, 1), (1, 2), (2, 3), (3, 0)])
                P = Prob(terms, rigs, recs={"R": (True, True, {i: 1.0 for i in range(4)})}, adjust=adjust, motion_loss=("TrivialLoss", 1.0))
                if solve(ck, "groups", "groups %s, deviations %s, positions off by %g" % (names, "estimated" if adjust else "given", push), P, tol=3e-3) is None:
                    return
                ck.outcome((names, adjust, push))
    ck.sample(("groups", "optimal"))


def p_covariance(ck, case):
    """covariances may be asked for: the result is the same, and validity says whether everything is determined"""
    extra = ((0, "rb", "fix"), (1, "rb", "fix")) if case["rig"] else ()
    rigs = [("ra", "id")] * 3
    T = tilted(rigs)
    full = pos_terms(3, 0.5)
    for i in range(3):
        R = true_shot(rigs, "s%d" % i)[0]
        full += [("pan", "s%d" % i, angles(R)[0], 0.1), ("tilt", "s%d" % i, angles(R)[1], 0.15), ("roll", "s%d" % i, angles(R)[2], 0.2)]
    for drop in [()] + [(k,) for k in range(len(full))] + [(0, 1, 2), (3, 6)]:
        for fixed in ((), (0,), (1, 2)):
            terms = [t for k, t in enumerate(full) if k not in drop]
            P = Prob(terms, rigs, fixed=fixed, extra=extra)
            ba = P.build(covariances=True)
            ba.run()
            st = P.read(ba)
            ck.ev(1)
            what = "covariances without constraints %s, fixed instances %s%s" % (drop, fixed, ", two shots per instance" if extra else "")
            if optimal(ck, "covariance", what, P, st) is None:
                return
            f, x, _ = P.residuals(st)
            J = jac(f, x, f(x))
            sv = np.linalg.svd(J, compute_uv=False)
            determined = len(sv) == len(x) and J.shape[0] >= len(x) and sv[-1] > 1e-4
            if ba.get_covariance_estimation_valid() != determined:
                ck.fail("covariance", "%s: estimation said to be %s, singular values %s" % (what, "valid" if not determined else "not valid", sv[-2:]))
                return
            ba = P.build()
            ba.run()
            plain = P.read(ba)
            d = max(np.abs(a[1] - b[1]).max() for a, b in zip(st["inst"], plain["inst"]))
            if d > 1e-9:
                ck.fail("covariance", "%s: the result changes by %g" % (what, d))
                return
            ck.outcome((case["rig"], drop, fixed, determined))
    ck.sample(("covariance", case["rig"]))


def p_orders(ck, case):
    """the order in which constraints are added does not matter; running again changes nothing"""
    rigs = [("ra", "fix"), ("rb", "free"), ("ra", "fix")]
    T = tilted(rigs)
    items = [off(T["up"])[0], off(T["relrot"])[0], off(T["linear"])[0], off(T["pan"])[0], off(T["heat"])[0]]
    terms = pos_terms(3, 0.5) + items
    ref = None
    for perm in itertools.permutations(range(5)):
        P = Prob(terms, rigs)
        ba = P.build(order=[0, 1, 2] + [3 + k for k in perm])
        ba.run()
        st = P.read(ba)
        ck.ev(1)
        ck.outcome(("order", perm))
        v = np.concatenate([np.concatenate([R.ravel(), t]) for R, t in st["inst"]])
        if ref is None:
            ref = v
            if optimal(ck, "orders", "five constraints", P, st) is None:
                return
        if np.abs(v - ref).max() > 1e-4:
            ck.fail("orders", "adding the constraints in order %s changes the result by %g" % (perm, np.abs(v - ref).max()))
            return
        ba.run()
        again = P.read(ba)
        v2 = np.concatenate([np.concatenate([R.ravel(), t]) for R, t in again["inst"]])
        if np.abs(v2 - v).max() > 1e-3:
            ck.fail("orders", "running again moves the result by %g" % np.abs(v2 - v).max())
            return
    # constraints that say nothing
    for k in ("up", "pan", "tilt", "roll"):
        for sd in (0.0, -1.0):
            t = list(off(tilted([("ra", "id")] * 3)["angles" if k != "up" else "up"])[0])
            t = (k, "s0", t[2], sd)
            P = Prob(pos_terms(3) + [t], move=0.1)
            ba = P.build()
            ba.run()
            st = P.read(ba)
            ck.ev(1)
            if optimal(ck, "orders", "%s with deviation %g" % (k, sd), P, st) is None:
                return
            d = np.abs(log(st["inst"][0][0].T @ P.inst[0][0])).max()
            ck.expect(d < 1e-6, "orders", "%s with deviation %g turns the shot by %g" % (k, sd, d))
    for n in (0, 1, 2):
        P = Prob(pos_terms(3) + off(tilted([("ra", "id")] * 3)["linear"]), max_iter=n)
        ba = P.build()
        ba.run()
        st = P.read(ba)
        moved = max(np.abs(a[1] - b[1]).max() for a, b in zip(st["inst"], P.inst))
        ck.ev(1)
        ck.expect((moved > 1e-9) == (n > 0), "orders", "%d iterations move the instances by %g" % (n, moved))


def refused(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False


def p_refuse(ck, case):
    """names that do not exist are refused, and the adjuster goes on working"""
    z = np.zeros(3)

    def fresh():
        P = Prob(pos_terms(3) + seen_points([("ra", "id")] * 3, "perspective", range(3)), points=range(3), move=0.02)
        return P, P.build()
    bad = {
        "camera of an instance": lambda ba: ba.add_rig_instance("n", pygeometry.Pose(), {"n": "?"}, {"n": "ra"}, False),
        "rig camera of an instance": lambda ba: ba.add_rig_instance("n", pygeometry.Pose(), {"n": "c"}, {"n": "?"}, False),
        "rig camera twice": lambda ba: ba.add_rig_camera("ra", pygeometry.Pose(), pygeometry.Pose(), True),
        "instance of a position": lambda ba: ba.add_rig_instance_position_prior("?", z, z + 1, ""),
        "point of a prior": lambda ba: ba.add_point_prior("?", z, z + 1, True),
        "shot of an observation": lambda ba: ba.add_point_projection_observation("?", "p0", np.zeros(2), 1.0),
        "point of an observation": lambda ba: ba.add_point_projection_observation("s0", "?", np.zeros(2), 1.0),
        "origin": lambda ba: ba.set_gauge_fix_shots("?", "s0"),
        "camera read": lambda ba: ba.get_camera("?"),
        "point read": lambda ba: ba.get_point("?"),
        "instance read": lambda ba: ba.get_rig_instance_pose("?"),
        "rig camera read": lambda ba: ba.get_rig_camera_pose("?"),
        "reconstruction read": lambda ba: ba.get_reconstruction("?"),
    }
    for name, f in bad.items():
        P, ba = fresh()
        ck.ev(1)
        ck.outcome(("refuse", name))
        if not refused(f, ba):
            ck.fail("refuse", "an unknown %s is accepted" % name)
            continue
        if name not in ("camera of an instance", "rig camera of an instance"):
            ba.run()
            optimal(ck, "refuse", "after refusing an unknown %s" % name, P, P.read(ba))
    late = {
        "up": lambda ba: ba.add_absolute_up_vector("?", np.array([0, 0, 1.0]), 1.0), "pan": lambda ba: ba.add_absolute_pan("?", 1.0, 1.0),
        "tilt": lambda ba: ba.add_absolute_tilt("?", 1.0, 1.0), "roll": lambda ba: ba.add_absolute_roll("?", 1.0, 1.0),
        "common": lambda ba: ba.add_common_position("s0", "?", 0.1, 1.0), "linear": lambda ba: ba.add_linear_motion("s0", "s1", "?", 0.5, 1.0, 1.0),
        "relative rotation": lambda ba: ba.add_relative_rotation(pybundle.RelativeRotation("?", "s0", z)),
        "relative motion": lambda ba: ba.add_relative_motion(pybundle.RelativeMotion("?", "i0", z, z, 1.0, 1.0, False)),
        "zero up vector": lambda ba: ba.add_absolute_up_vector("s0", z, 1.0),
        "solver": lambda ba: ba.set_linear_solver_type("no such solver"), "loss": lambda ba: ba.set_point_projection_loss_function("no such loss", 1.0),
    }
    for name, f in late.items():
        P, ba = fresh()
        ck.ev(1)
        ck.outcome(("late", name))
        ck.expect(refused(lambda: (f(ba), ba.run())), "refuse", "an unknown name in %s is accepted" % name)
    P, ba = fresh()
    ck.expect(ba.has_point("p0") and not ba.has_point("?"), "refuse", "has_point is wrong")
