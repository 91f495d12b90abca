"""C20: bundle adjustment of reconstructions keeps the truth, finds it from nearby, minimises the documented cost, and moves only what it may."""
import itertools
import math

import numpy as np
from opensfm import pygeometry, pymap, pysfm, reconstruction as orec, types
from scipy.optimize import least_squares

import c13
from bascene import POINTS, PRIOR_SD, REF, Scene, camera, config, diff, pose, state, wob
from scene import rod

LEVEL = "exploration"
RULE = ("all neighbourhood graphs of 4 shots x rig groupings x radius x thresholds x sizes; all camera models x rigs x derivatives x losses x sources of "
        "position (GPS, control points, bias, orientation prior with every EXIF orientation, depth priors) x fixed / free cameras; all windows of local and "
        "pose-only adjustment; non-trivial: distinct (part, configuration) combinations")
ASSUMPTIONS = ["observations of the truth are exact where the truth must be found; initial values are within 0.1 units of it",
               "the transition of dual cameras stays at the middle of its range (its barrier has its minimum there)",
               "local bundle adjustment is given no control points", "images of one rig instance have GPS positions referring to the instance"]
LOSSES = ["TrivialLoss", "HuberLoss", "SoftLOneLoss", "CauchyLoss", "ArctanLoss"]
RIGN = [None, "pair", "triple"]


def setup(quick):
    pass


def cases(ck):
    out = []
    q = ck.quick
    for g in range(3):
        for lo in range(0, 729, 27 if q else 9):
            out.append({"part": "hood", "group": g, "lo": lo, "hi": lo + (27 if q else 9)})
    for t in c13.NK:
        for rig in RIGN:
            out.append({"part": "exact", "type": t, "rig": rig})
            out.append({"part": "local", "type": t, "rig": rig})
            out.append({"part": "poses", "type": t, "rig": rig})
            for loss in LOSSES:
                out.append({"part": "cost", "type": t, "rig": rig, "loss": loss})
    for tag in [None, 1, 2, 3, 4, 5, 6, 7, 8]:
        for rig in RIGN[:2]:
            out.append({"part": "up", "tag": tag, "rig": rig})
    out.append({"part": "detect"})
    out.append({"part": "mixed"})
    out.append({"part": "freerig"})
    out += [{"part": "posedepth", "type": t} for t in ("perspective", "brown", "fisheye")]
    return out


def check(ck, case):
    globals()["p_" + case["part"]](ck, case)


# ---- neighbourhoods
def hood_rec(counts, triple, group):
    rec = types.Reconstruction()
    c = camera("perspective")
    rec.add_camera(c)
    insts = {0: "i0", 1: "i0" if group >= 1 else "i1", 2: "i2", 3: "i2" if group == 2 else "i3"}
    if group:
        for j in range(4):
            rec.add_rig_camera(pymap.RigCamera(pygeometry.Pose(np.zeros(3), np.array([0.1 * j, 0, 0])), "r%d" % j))
    for i in range(4):
        if group:
            if insts[i] not in rec.rig_instances:
                rec.add_rig_instance(pymap.RigInstance(insts[i]))
            rec.create_shot("s%d" % i, "c0", rig_camera_id="r%d" % i, rig_instance_id=insts[i])
        else:
            rec.create_shot("s%d" % i, "c0")
    n = 0
    sees = [list(p) for p, k in zip(itertools.combinations(range(4), 2), counts) for _ in range(k)]
    if triple:
        sees.append([0, 1, 2])
    for who in sees:
        rec.create_point("p%d" % n, [n, 0, 5])
        for i in who:
            rec.add_observation("s%d" % i, "p%d" % n, pymap.Observation(0.1, 0.1, 1, 0, 0, 0, n))
        n += 1
    return rec, sees, ({i: {j for j in range(4) if insts[j] == insts[i]} for i in range(4)} if group else {i: {i} for i in range(4)})


def neighbours(sees, inside, least, most, expand):
    """all sets which may come out: the `most` outside shots with the most points in common with the inside, at least `least`"""
    common = {}
    for who in sees:
        if inside & set(who):
            for w in set(who) - inside:
                common[w] = common.get(w, 0) + 1
    n = min(most, len(common))
    ok = {w: k for w, k in common.items() if k >= least}
    n = min(n, len(ok))
    if n == 0:
        return {frozenset()}
    cut = sorted(ok.values(), reverse=True)[n - 1]
    sure = [w for w, k in ok.items() if k > cut]
    ties = [w for w, k in ok.items() if k == cut]
    return {frozenset(x for w in sure + list(extra) for x in expand[w]) for extra in itertools.combinations(ties, n - len(sure))}


def hoods(sees, central, radius, least, size, expand):
    inner = {frozenset(expand[central])}
    for _ in range(1, radius):
        nxt = set()
        for s in inner:
            if len(s) >= size:
                nxt.add(s)
            else:
                nxt |= {s | n for n in neighbours(sees, s, least, size - len(s), expand)}
        inner = nxt
    return {(s, frozenset(b)) for s in inner for b in neighbours(sees, s, 1, 10 ** 6, expand)}


def p_hood(ck, case):
    combos = list(itertools.product(range(3), repeat=6))[case["lo"]:case["hi"]]
    for counts in combos:
        for triple in (False, True):
            rec, sees, expand = hood_rec(counts, triple, case["group"])
            for central, radius, least, size in itertools.product(range(0, 4, 1 if not ck.quick else 2), (1, 2, 3), (1, 2), (1, 2, 3, 50)):
                want = hoods(sees, central, radius, least, size, expand)
                got = pysfm.BAHelpers.shot_neighborhood_ids(rec.map, "s%d" % central, radius, least, size)
                g = tuple(frozenset(int(x[1:]) for x in v) for v in got)
                ck.outcome(("hood", case["group"], g))
                if g not in want:
                    ck.fail("hood", "neighbourhood of s%d (radius %d, %d common, at most %d) in %s is %s, not one of %s" % (
                        central, radius, least, size, sees, g, [tuple(map(sorted, w)) for w in want]))
                    return
                if case["group"] == 0:
                    got = orec.shot_neighborhood(rec, "s%d" % central, radius, least, size)
                    g = tuple(frozenset(int(x[1:]) for x in v) for v in got)
                    if g not in want:
                        ck.fail("hood", "python neighbourhood of s%d (radius %d, %d common, at most %d) in %s is %s, not one of %s" % (
                            central, radius, least, size, sees, g, want))
                        return
            ck.ev(1)


# ---- the truth
def far(d, tol, loose=()):
    return {k: v for k, v in d.items() if v > (tol if k[0] not in loose else 1e-2)}


def gcp_sees(k, n):
    return (k + n) % 3 != 0


GCPS = [(1, 1, 1), (-2, 0.5, 0), (0.5, -1.5, -0.5), (1.5, 0, 2), (-1, -1, 1)]


def errors_match(ck, rec, what, only=None):
    """stored reprojection errors are those of the reconstruction as it is now"""
    for pid, p in rec.points.items():
        if only is not None and pid not in only:
            continue
        errs = p.reprojection_errors
        obs = p.get_observations()
        if set(errs) != {s.id for s in obs}:
            if only is None:
                ck.fail("errors_match", "%s: errors of %s are stored for %s, it is seen by %s" % (what, pid, sorted(errs), sorted(s.id for s in obs)))
                return False
        for s in obs:
            if s.id not in errs:
                continue
            o = s.get_landmark_observation(p)
            q = s.pose.transform(p.coordinates)
            if s.camera.projection_type == "spherical":
                r = q / np.linalg.norm(q) - s.camera.pixel_bearing(o.point)
            else:
                r = s.camera.project(q) - o.point
            if np.abs(np.abs(r) - np.abs(errs[s.id])).max() > 1e-7:
                ck.fail("errors_match", "%s: stored error of %s in %s is %s, the reprojection is off by %s" % (what, pid, s.id, errs[s.id], r))
                return False
    return True


def p_exact(ck, case):
    t, rig = case["type"], case["rig"]
    for source, analytic, loss, free in itertools.product(["gps", "some gps", "gcp", "gps+gcp", "gps+flat gcp", "bias", "none", "depth"], (True, False),
                                                          LOSSES if not ck.quick else LOSSES[2:4], (True, False)):
        S = Scene((t,), rig=rig, n=4)
        cfg = config(bundle_analytic_derivatives=analytic, loss_function=loss, optimize_camera_parameters=free, align_method="naive")
        depth = None
        if source == "depth":
            def depth(S_, s, n):
                R, tr = S_.rt(s)
                x = R @ S_.points[n] + tr
                if n % 3 == 0:
                    return pymap.Depth(float(np.linalg.norm(x)), True, 0.05)
                return pymap.Depth(float(x[2]), False, 0.05) if n % 3 == 1 else None
        truth, _, _ = S.build()
        rec, priors, rp = S.build(move=0.1, depth=depth, move_cams=0.01 if free and t != "spherical" else 0.0)
        gcps = []
        if source in ("gps", "gps+gcp", "gps+flat gcp", "depth"):
            S.gps(rec, lambda k: True)
        if source == "some gps":
            per = len(S.rig) if S.rig else 1
            S.gps(rec, lambda k: k // per != 1)
        if "gcp" in source or source == "bias":
            gcps = S.gcps(GCPS, gcp_sees, altitude="flat" not in source)
            if "flat" not in source:
                gcps[0].observations = gcps[0].observations[:1]  # seen once: its position comes from the survey
            lone = S.gcps([(0.3, 0.3, 0.3)], lambda k, n: n == 0, lla=False)[0]
            lone.id = "lone"
            gcps.append(lone)
        if source == "bias":
            cfg["bundle_compensate_gps_bias"] = True
            b = pygeometry.Similarity(np.array([0.02, -0.03, 0.05]), np.array([1.0, -2.0, 0.5]), 1.1)
            inv = b.inverse()
            S.gps(rec, lambda k: True)
            for s in rec.shots.values():
                s.metadata.gps_position.value = inv.transform(s.metadata.gps_position.value)
            rec.map.set_bias("c0", pygeometry.Similarity(np.array([0.02, -0.03, 0.05]), np.array([1.1, -2.05, 0.45]), 1.1))
        what = "%s, %s, %s, %s, %s, cameras %s" % (t, rig, source, loss, "analytic" if analytic else "autodiff", "free" if free else "fixed")
        before = state(rec)
        r = orec.bundle(rec, priors, rp, gcps, cfg)
        ck.ev(1)
        ck.outcome((t, rig, source, loss, analytic, free))
        want = state(truth)
        after = state(rec)
        if (r["num_images"], r["num_points"], r["num_reprojections"]) != (len(S.shots), len(S.points), len(S.shots) * len(S.points)):
            ck.fail("exact", "%s: report has %s images, %s points, %s projections" % (what, r["num_images"], r["num_points"], r["num_reprojections"]))
        if not errors_match(ck, rec, what):
            return
        if source == "none":
            worst = max(np.abs(e).max() for p in rec.points.values() for e in p.reprojection_errors.values())
            if worst > 1e-5:
                ck.fail("exact", "%s: exact observations keep a reprojection error of %g" % (what, worst))
                return
            bad = {k: v for k, v in diff(after, want).items() if k[0] in ("camera", "rig camera") and v > 1e-3}
        else:
            bad = far(diff(after, want), 2e-3 if t == "dual" else 1e-4)
        if bad:
            ck.fail("exact", "%s: ends away from the truth: %s" % (what, dict(sorted(bad.items(), key=lambda x: -x[1])[:3])))
            return
        if not free and any(k[0] == "camera" and v for k, v in diff(after, before).items()):
            ck.fail("exact", "%s: fixed cameras changed" % what)
            return
        if source == "bias":
            got = rec.map.get_bias("c0")
            x = np.array([3.0, 1.0, -2.0])
            if np.abs(got.transform(x) - b.transform(x)).max() > 1e-2:
                ck.fail("exact", "%s: GPS bias ends at %s %s %s" % (what, got.rotation, got.translation, got.scale))
                return
    ck.sample((case, "reached the truth"))


def p_mixed(ck, case):
    """several cameras of different models in one reconstruction; and the truth itself is left alone"""
    names = list(c13.NK)
    for a, b in itertools.permutations(names, 2):
        for analytic, move in itertools.product((True, False), (0.0, 0.1)):
            S = Scene((a, b), n=4)
            rec, priors, rp = S.build(move=move)
            S.gps(rec, lambda k: True)
            want = state(S.build()[0])
            orec.bundle(rec, priors, rp, [], config(bundle_analytic_derivatives=analytic, align_method="naive"))
            ck.ev(1)
            ck.outcome(("mixed", a, b, analytic, move))
            bad = far(diff(state(rec), want), (2e-3 if "dual" in (a, b) else 1e-4) if move else 1e-7)
            if bad:
                ck.fail("mixed", "cameras %s and %s (analytic %s), start %s from the truth: %s" % (a, b, analytic, move, dict(sorted(bad.items(), key=lambda x: -x[1])[:3])))
                return
            if not errors_match(ck, rec, "cameras %s and %s" % (a, b)):
                return


def p_up(ck, case):
    """cameras on a line: the orientation prior turns the scene upright whatever the EXIF orientation"""
    tag, rig = case["tag"], case["rig"]
    down = {None: 0.0, 1: 0.0, 2: 0.0, 3: math.pi, 4: math.pi, 5: -math.pi / 2, 6: -math.pi / 2, 7: math.pi / 2, 8: math.pi / 2}[tag]
    # the stored image has its top where the camera's up direction is rolled by `down`
    for method, prior, roll in itertools.product(("auto", "orientation_prior"), ("horizontal", "vertical", "no_roll"), (0.0, 0.15, -0.15, 0.3)):
        S = Scene(("perspective",), layout="line", n=5, rig=None, level=prior != "vertical", roll=down if prior != "vertical" else 0.0)
        if prior == "vertical":
            S.R = [rod((math.pi, 0, 0)) @ rod((0, 0, 0.2)) for _ in S.R]
            S.centers = [np.array([1.5 * i - 3, 0.0, 10.0]) for i in range(5)]
        if rig:
            S = rigged(S)
        truth = state(S.build()[0])
        rec, priors, rp = S.build()
        S.gps(rec, lambda k: True)
        for s in rec.shots.values():
            if tag is not None:
                s.metadata.orientation.value = tag
        # the whole scene turned about the line of cameras, which GPS cannot see
        axis = np.array([1.0, 0, 0])
        A, c0 = rod(roll * axis), S.centers[0]
        for i in rec.rig_instances.values():
            p = i.pose
            R, o = p.get_R_world_to_cam(), p.get_origin()
            i.pose = pose(R @ A.T, c0 + A @ (o - c0))
        for p in rec.points.values():
            p.coordinates = c0 + A @ (p.coordinates - c0)
        start = state(rec)
        orec.bundle(rec, priors, rp, [], config(align_method=method, align_orientation_prior=prior))
        ck.ev(1)
        ck.outcome((tag, rig, method, prior, roll))
        bad = far(diff(state(rec), truth if prior != "no_roll" else start), 1e-3)
        if bad:
            ck.fail("up", "%s prior (%s), EXIF orientation %s, rig %s, scene rolled by %s: %s" % (prior, method, tag, rig, roll, dict(sorted(bad.items(), key=lambda x: -x[1])[:3])))
            return


def rigged(S):
    """the same scene with a second camera close to the first"""
    T = Scene.__new__(Scene)
    T.__dict__.update(S.__dict__)
    T.rig = [((0, 0, 0), (0, 0, 0)), ((0, 0, 0), (0.02, 0.01, 0))]
    T.shots = [("s%d_%d" % (i, j), "i%d" % i, i, j, 0) for i in range(len(S.centers)) for j in range(2)]
    return T


def p_detect(ck, case):
    """the alignment method: similarity exactly when at least three usable positions are not on a line"""
    from bascene import LINE, RING
    for layout, n in itertools.product(("ring", "line"), range(1, 5)):
        S = Scene(("perspective",), layout=layout, n=max(n, 2))
        for gps, used, usegps, usegcp in itertools.product(itertools.product((False, True), repeat=len(S.shots)), range(4), (True, False), (True, False)):
            rec, _, _ = S.build()
            S.gps(rec, lambda k: gps[k])
            for layout2 in ("spread", "on line"):
                pos = [(1, 1, 1), (-2, 0.5, 0), (0.5, -1.5, -0.5)] if layout2 == "spread" else [tuple(np.array(LINE[0]) + k * (np.array(LINE[1]) - np.array(LINE[0]))) for k in (0.2, 0.7, 1.4)]
                if layout2 == "on line" and layout == "ring":
                    continue
                if layout2 == "on line":
                    pos = [(x, -5.0, 0.0) for x in (-1.0, 0.0, 1.0)]
                gcps = S.gcps(pos, lambda k, m: True) if used else []
                for k, g in enumerate(gcps):
                    if k >= used:  # not usable: seen once, or without coordinates
                        if k % 2:
                            g.observations = g.observations[:1]
                        else:
                            g.lla = {}
                have = [S.centers[k] for k in range(len(S.shots)) if gps[k]] if usegps else []
                have += [np.array(pos[k]) for k in range(min(used, len(gcps)))] if usegcp else []
                if len(have) < 3:
                    want = "orientation_prior"
                else:
                    d = np.array(have) - np.mean(have, axis=0)
                    want = "orientation_prior" if np.linalg.svd(d)[1][1] < 1e-3 else "naive"
                got = [pysfm.BAHelpers.detect_alignment_constraints(rec.map, config(bundle_use_gps=usegps, bundle_use_gcp=usegcp), gcps) for _ in range(2)]
                ck.ev(1)
                ck.outcome((layout, n, gps, used, usegps, usegcp, layout2))
                if got != [want] * 2:
                    ck.fail("detect", "%s of %d shots, GPS %s (%s), %d of %d control points usable (%s, %s): alignment by %s, expected %s" % (
                        layout, n, gps, usegps, used, len(gcps), layout2, usegcp, got, want))
                    return


# ---- windows
def chain(s, n):
    """point n is seen by instances n%6, n%6+1 (and a few by one more)"""
    i = s[2]
    return i in (n % 6, n % 6 + 1) or (n % 5 == 0 and i == n % 6 + 2)


def p_local(ck, case):
    t, rig = case["type"], case["rig"]
    S = Scene((t,), rig=rig, n=6, points=POINTS * 1 + [p + np.array([0.2, -0.3, 0.1]) for p in POINTS], sees=chain)
    truth = state(S.build()[0])
    for central, radius, least, size, gps, analytic, loss in itertools.product(range(0, len(S.shots), max(1, len(S.shots) // 6)), (1, 2, 3), (1, 4, 9), (1, 50) if ck.quick else (1, 2, 3, 50),
                                                                         ("all", "no accuracy", "off"), (True, False), LOSSES[2:3] if ck.quick else LOSSES):
        rec, priors, rp = S.build(move=0.02)
        S.gps(rec, lambda k: gps != "none")
        if gps == "no accuracy":
            for s in rec.shots.values():
                s.metadata.gps_accuracy.reset()
                s.metadata.gps_position.value = s.metadata.gps_position.value + np.array([1.0, 2.0, 3.0])
        if gps == "off":  # what is not used may be wrong
            for s in rec.shots.values():
                s.metadata.gps_position.value = s.metadata.gps_position.value + np.array([1.0, -2.0, 0.5])
        cid = S.shots[central][0]
        # only the interior is moved away from the truth
        cfg = config(local_bundle_radius=radius, local_bundle_min_common_points=least, local_bundle_max_shots=size, bundle_use_gps=gps != "off",
                     bundle_analytic_derivatives=analytic, loss_function=loss)
        inner, outer = pysfm.BAHelpers.shot_neighborhood_ids(rec.map, cid, radius, least, size)
        tr = S.build()[0]
        for iid, i in rec.rig_instances.items():
            if not any(s[1] == iid and s[0] in inner for s in S.shots):
                i.pose = tr.rig_instances[iid].pose
        seen = {p.id for s in inner for p in rec.shots[s].get_valid_landmarks()}
        for pid, p in rec.points.items():
            if pid not in seen:
                p.coordinates = p.coordinates + 0.5  # anywhere
        before = state(rec)
        ids, report = pysfm.BAHelpers.bundle_local(rec.map, dict(priors), dict(rp), [], cid, cfg)
        after = state(rec)
        ck.ev(1)
        ck.outcome((t, rig, central, radius, least, size, gps))
        what = "local adjustment around %s (radius %d, %d common, at most %d), %s, %s, GPS %s, analytic %s, %s" % (cid, radius, least, size, t, rig, gps, analytic, loss)
        if sorted(ids) != sorted(seen):
            ck.fail("local", "%s: adjusted points %s, the interior sees %s" % (what, sorted(ids), sorted(seen)))
            return
        nrep = sum(1 for s in set(inner) | set(outer) for p in rec.shots[s].get_valid_landmarks() if p.id in seen)
        want = {"num_images": len(inner), "num_interior_images": len(inner), "num_boundary_images": len(outer),
                "num_other_images": len(S.shots) - len(inner) - len(outer), "num_points": len(seen), "num_reprojections": nrep}
        if any(report[k] != v for k, v in want.items()):
            ck.fail("local", "%s: report %s, expected %s" % (what, {k: report[k] for k in want}, want))
            return
        ins = {s[1] for s in S.shots if s[0] in inner}
        for k, v in diff(after, before).items():
            if not (k[0] == "instance" and k[1] in ins or k[0] == "point" and k[1] in seen) and v > 1e-9:
                ck.fail("local", "%s: %s, which is outside of the window, moved by %g" % (what, k, v))
                return
        if len(outer) > (len(S.rig) if S.rig else 1) or gps == "all":
            bad = {k: v for k, v in diff(after, truth).items() if (k[0] == "instance" and k[1] in ins or k[0] == "point" and k[1] in seen and
                                                                 sum(1 for s in set(inner) | set(outer) if any(p.id == k[1] for p in rec.shots[s].get_valid_landmarks())) >= 2)
                   and v > 5e-3}
            if bad and (least == 1 or len(ins) > 2 or len(outer) > 2):
                ck.fail("local", "%s: ends away from the truth: %s" % (what, dict(sorted(bad.items(), key=lambda x: -x[1])[:3])))
                return
        if not errors_match(ck, rec, what, only=seen):
            return


def p_poses(ck, case):
    t, rig = case["type"], case["rig"]
    S = Scene((t,), rig=rig, n=4)
    sid = [s[0] for s in S.shots]
    sets = [c for n in (1, 2, 3) for c in itertools.combinations(range(len(sid)), n)]
    if ck.quick and len(sets) > 40:
        sets = sets[::len(sets) // 40 + 1] + [tuple(range(3)), (3, 4, 5)]
    for chosen, gps, analytic in itertools.product(sets, ("all", "off", "no accuracy", "spread"), (True, False)):
        rec, priors, rp = S.build(move=0.05, move_points=0.0)
        S.gps(rec, lambda k: True, acc=0.01)
        if gps == "spread":  # the average of the members' positions is what counts
            per = len(S.rig) if S.rig else 1
            for k, s in enumerate(S.shots):
                off = wob(k % per + 60, 3) * 0.2 - np.mean([wob(j + 60, 3) * 0.2 for j in range(per)], axis=0)
                rec.shots[s[0]].metadata.gps_position.value = S.centers[s[2]] + off
        if gps == "no accuracy":
            for s in rec.shots.values():
                s.metadata.gps_accuracy.reset()
                s.metadata.gps_position.value = s.metadata.gps_position.value + np.array([1.0, 2.0, 3.0])
        if gps == "off":
            for s in rec.shots.values():
                s.metadata.gps_position.value = s.metadata.gps_position.value + np.array([1.0, -2.0, 0.5])
        ids = {sid[k] for k in chosen}
        free = {i for i in {s[1] for s in S.shots} if all(s[0] in ids for s in S.shots if s[1] == i)}
        before = state(rec)
        truth = state(S.build()[0])
        pysfm.BAHelpers.bundle_shot_poses(rec.map, ids, dict(priors), dict(rp), config(bundle_use_gps=gps != "off", bundle_analytic_derivatives=analytic))
        ck.ev(1)
        ck.outcome((t, rig, chosen, gps, analytic))
        what = "poses of %s, %s, rig %s, GPS %s, analytic %s" % (sorted(ids), t, rig, gps, analytic)
        after = state(rec)
        for k, v in diff(after, before).items():
            if not (k[0] == "instance" and k[1] in free) and v > 1e-9:
                ck.fail("poses", "%s: %s moved by %g" % (what, k, v))
                return
        bad = {k: v for k, v in diff(after, truth).items() if k[0] == "instance" and k[1] in free and v > 1e-5}
        if bad:
            ck.fail("poses", "%s: ends away from the true poses: %s" % (what, bad))
            return


def p_posedepth(ck, case):
    """depths that are known to be larger than the rest says push the cameras back"""
    for rig, analytic, radial in itertools.product((None, "pair"), (True, False), (True, False)):
        S = Scene((case["type"],), rig=rig, n=4)

        def depth(S_, s, n):
            R, tr = S_.rt(s)
            x = R @ S_.points[n] + tr
            return pymap.Depth(float(np.linalg.norm(x) if radial else x[2]) + 0.3, radial, 1e-4)
        rec, priors, rp = S.build(depth=depth)
        pysfm.BAHelpers.bundle_shot_poses(rec.map, {s[0] for s in S.shots}, dict(priors), dict(rp), config(bundle_use_gps=False, bundle_analytic_derivatives=analytic))
        ck.ev(1)
        ck.outcome(("posedepth", case["type"], rig, analytic, radial))
        for s in S.shots:
            xs = [rec.shots[s[0]].pose.transform(p.coordinates) for p in rec.points.values()]
            R, tr = S.rt(s)
            old = [R @ np.asarray(p) + tr for p in S.points]
            size = (lambda v: np.linalg.norm(v)) if radial else (lambda v: v[2])
            got = np.mean([size(x) for x in xs]) - np.mean([size(x) for x in old])
            if abs(got - 0.3) > 0.1:
                ck.fail("posedepth", "%s, rig %s, analytic %s: depths of %s (radial %s) are known to be 0.3 larger, its pose changes them by %g" % (
                    case["type"], rig, analytic, s[0], radial, got))
                return


# ---- the cost
def rho(name, s, a=1.0):
    if name == "TrivialLoss":
        return s
    if name == "HuberLoss":
        return np.where(s <= a * a, s, 2 * a * np.sqrt(np.maximum(s, a * a)) - a * a)
    if name == "SoftLOneLoss":
        return 2 * a * a * (np.sqrt(1 + s / a / a) - 1)
    if name == "CauchyLoss":
        return a * a * np.log1p(s / a / a)
    return a * np.arctan2(s, a)


def squash(name, r, a=1.0):
    """residuals whose squares sum to rho of the squared norms of the rows of r"""
    s = np.maximum((r * r).sum(axis=1), 1e-300)
    return (r * np.sqrt(rho(name, s, a) / s)[:, None]).ravel()


class Cost:
    """the cost of a reconstruction, as documented in the configuration, as a function of what may move"""

    def __init__(self, S, rec, priors, rp, gcps, cfg, rig_free=False):
        self.S, self.cfg, self.gcps, self.rec = S, cfg, gcps, rec
        self.loss, self.a = cfg["loss_function"], cfg["loss_function_threshold"]
        self.rig_free = rig_free
        self.free = cfg["optimize_camera_parameters"]
        self.cams = {}
        for cid, c in rec.cameras.items():
            names = [str(p).split(".")[-1].lower() for p in c.get_parameters_types()]
            names = ["aspect_ratio" if n in ("aspectratio", "aspect_ratio") else n for n in names]
            pv = priors[cid].get_parameters_values()
            use = [k for k, n in enumerate(names) if n in PRIOR_SD] if self.free else []
            self.cams[cid] = (names, np.array(pv), use)
        self.rp = {i: (np.array(c.pose.get_R_cam_to_world_min()), np.array(c.pose.get_origin())) for i, c in rp.items()}
        self.base = {}
        for i, ri in rec.rig_instances.items():
            self.base[i] = (ri.pose.get_R_world_to_cam(), ri.pose.get_origin())
        self.rigs = {i: (c.pose.get_R_world_to_cam(), np.array(c.pose.translation)) for i, c in rec.rig_cameras.items()}
        self.obs = []
        for s in S.shots:
            sh = rec.shots[s[0]]
            o = [(p.id, sh.get_landmark_observation(p)) for p in sh.get_valid_landmarks()]
            self.obs.append((s, o))
        self.gps = {}
        for iid in rec.rig_instances.keys():
            m = [rec.shots[s[0]].metadata for s in S.shots if s[1] == iid]
            m = [x for x in m if x.gps_position.has_value and x.gps_accuracy.has_value]
            if m and cfg["bundle_use_gps"]:
                self.gps[iid] = (np.mean([x.gps_position.value for x in m], axis=0), np.mean([x.gps_accuracy.value for x in m]))
        nproj = sum(len(o) for _, o in self.obs)
        there = {s[0] for s in S.shots}
        gobs = sum(o.shot_id in there for g in gcps for o in g.observations)
        self.weight = cfg["gcp_global_weight"] * (len(rec.rig_instances) + nproj) / max(1, len(gcps) + gobs)

    def start(self):
        x = []
        for cid, (names, _, use) in sorted(self.cams.items()):
            v = np.array(self.rec.cameras[cid].get_parameters_values())
            x += list(v[use])
        x += [0.0] * 6 * len(self.base)
        if self.rig_free:
            for i in sorted(self.rigs):
                p = self.rec.rig_cameras[i].pose
                x += list(p.get_R_cam_to_world_min()) + list(p.get_origin())
        for p in sorted(self.rec.points.keys()):
            x += list(self.rec.points[p].coordinates)
        for g in self.gcps:
            x += list(REF.to_topocentric(*[g.lla[k] for k in ("latitude", "longitude", "altitude")])) if g.has_altitude and g.lla else list(GCPS[int(g.id[1:])])
        return np.array(x)

    def __call__(self, x):
        k = 0
        out = []
        cams = {}
        for cid, (names, prior, use) in sorted(self.cams.items()):
            c = camera(self.S.types[int(cid[1:])], cid)
            v = np.array(self.rec.cameras[cid].get_parameters_values())
            v[use] = x[k:k + len(use)]
            k += len(use)
            c.set_parameters_values(v)
            cams[cid] = c
            for i in use:
                sd = self.cfg[PRIOR_SD[names[i]]]
                out.append([(math.log(v[i] / prior[i]) if names[i] in ("focal", "aspect_ratio") else v[i] - prior[i]) / sd])
        inst = {}
        for i, (R, o) in self.base.items():
            inst[i] = (R @ rod(x[k:k + 3]), o + x[k + 3:k + 6])
            k += 6
            if i in self.gps:
                out.append((inst[i][1] - self.gps[i][0]) / self.gps[i][1])
        rigs = dict(self.rigs)
        if self.rig_free:
            for i in sorted(self.rigs):
                r, o = x[k:k + 3], x[k + 3:k + 6]
                k += 6
                R = rod(r).T
                rigs[i] = (R, -R @ o)
                out.append((r - self.rp[i][0]) / self.cfg["rig_rotation_sd"])
                out.append((o - self.rp[i][1]) / self.cfg["rig_translation_sd"])
        pts = {}
        for p in sorted(self.rec.points.keys()):
            pts[p] = x[k:k + 3]
            k += 3
        gp = {}
        for g in self.gcps:
            gp[g.id] = x[k:k + 3]
            k += 3
            if not g.lla:  # of unknown position: only its observations count
                continue
            sd = np.array([self.cfg["gcp_horizontal_sd"]] * 2 + [self.cfg["gcp_vertical_sd"]]) / self.weight
            want = REF.to_topocentric(*[g.lla[n] for n in ("latitude", "longitude", "altitude")])
            r = (gp[g.id] - want) / sd
            out.append(r if g.has_altitude else r[:2])
        rows, dep = [], []
        for s, obs in self.obs:
            R, o = inst[s[1]]
            rc = "r%d" % s[3] if s[3] is not None else None
            t = -R @ o
            if rc:
                A, b = rigs[rc]
                R, t = A @ R, A @ t + b
            c = cams["c%d" % s[4]]
            X = np.array([pts[p] for p, _ in obs])
            q = X @ R.T + t
            Z = np.array([ob.point for _, ob in obs])
            sc = np.array([ob.scale for _, ob in obs])
            for g in self.gcps:
                for ob in g.observations:
                    if ob.shot_id == s[0]:
                        q = np.vstack([q, R @ gp[g.id] + t])
                        Z = np.vstack([Z, ob.projection])
                        sc = np.append(sc, 0.001 / self.weight)
            if c.projection_type == "spherical":
                r = q / np.linalg.norm(q, axis=1)[:, None] - np.array([c.pixel_bearing(z) for z in Z])
            else:
                r = c.project_many(q) - Z
            rows.append(r / sc[:, None])
            for (p, ob), y in zip(obs, q):
                if ob.depth_prior is not None:
                    d = ob.depth_prior
                    dep.append([((np.linalg.norm(y) if d.is_radial else y[2]) - d.value) / d.std_deviation])
        res = [np.ravel(np.asarray(r)) for r in out] + [squash(self.loss, r, self.a) for r in rows]
        if dep:
            res.append(squash(self.loss, np.array(dep), self.a))
        return np.concatenate(res)


def p_cost(ck, case):
    t, rig, loss = case["type"], case["rig"], case["loss"]
    variants = list(itertools.product(("gps", "gps+gcp", "gps+flat gcp", "depth"), (True, False)))
    if ck.quick:
        variants = [v for n, v in enumerate(variants) if (n + LOSSES.index(loss) + RIGN.index(rig)) % 4 == 0]
    for source, free in variants:
        if t == "dual" and free:
            continue
        results = []
        for analytic in (True, False):
            # the rig cameras stay fixed in a small reconstruction; GPS and control points disagree with the observations
            S = Scene((t,), rig=rig, n=4, points=POINTS[:8])
            a = 1.0 if loss != "TrivialLoss" else 1.0
            cfg = config(loss_function=loss, loss_function_threshold=a, optimize_camera_parameters=free, align_method="naive",
                         bundle_analytic_derivatives=analytic, bundle_max_iterations=200, gcp_global_weight=0.02)
            depth = None
            if source == "depth":
                def depth(S_, s, n):
                    R, tr = S_.rt(s)
                    x = R @ S_.points[n] + tr
                    if n % 3 == 2:
                        return None
                    return pymap.Depth(float(np.linalg.norm(x) if n % 3 == 0 else x[2]) + 0.05 * wob(n, 1)[0], n % 3 == 0, 0.06 + 0.01 * n)
            rec, priors, rp = S.build(move=0.02, noise=0.004, depth=depth, scale=0.004)
            S.gps(rec, lambda k: True, acc=0.05, err=0.1)
            for k, s in enumerate(S.shots):
                rec.shots[s[0]].metadata.gps_accuracy.value = 0.05 + 0.01 * (k % 4)
            if free:
                priors = {"c0": shifted(priors["c0"])}
            gcps = S.gcps(GCPS, gcp_sees, altitude="flat" not in source, noise=0.002, shift=0.1) if "gcp" in source else []
            for g in gcps[:2]:  # also seen by an image that is not there
                o = pymap.GroundControlPointObservation()
                o.shot_id, o.projection = "elsewhere.jpg", np.array([0.1, 0.2])
                g.add_observation(o)
            if source == "gps+gcp":
                gcps[3].lla = {}
            orec.bundle(rec, priors, rp, gcps, cfg)
            results.append(state(rec))
        ck.ev(2)
        ck.outcome((t, rig, loss, source, free))
        what = "%s, rig %s, %s, %s, cameras %s" % (t, rig, loss, source, "free" if free else "fixed")
        d = diff(*results)
        worst = max(d.items(), key=lambda x: x[1])
        if worst[1] > 3e-4:
            ck.fail("cost", "%s: analytic and automatic derivatives end in different places: %s" % (what, worst))
            return
        optimal(ck, what, Cost(S, rec, priors, rp, gcps, cfg))
    ck.sample((case, "at a minimum"))


def shifted(c):
    """a prior away from the value the data ask for"""
    v = c.get_parameters_values()
    names = [str(p).split(".")[-1].lower() for p in c.get_parameters_types()]
    for k, n in enumerate(names):
        if n in ("focal", "aspectratio", "aspect_ratio"):
            v[k] *= 1.02
        elif n in PRIOR_SD:
            v[k] += 0.01 * wob(k, 1)[0]
    c.set_parameters_values(v)
    return c


GAP = [0.0]


def worker_done(ck):
    if GAP[0]:
        ck.notes.append("largest relative distance of a cost to its optimum: %.2g" % GAP[0])


def optimal(ck, what, cost):
    x0 = cost.start()
    if cost.gcps:  # control points are not stored: put them at their best first
        n = 3 * len(cost.gcps)
        sub = least_squares(lambda y: cost(np.concatenate([x0[:-n], y])), x0[-n:], xtol=1e-14, ftol=1e-14, gtol=1e-14)
        x0 = np.concatenate([x0[:-n], sub.x])
    c0 = 0.5 * float((cost(x0) ** 2).sum())
    best = least_squares(cost, x0, method="trf", x_scale="jac", max_nfev=8)
    gap = (c0 - best.cost) / c0
    GAP[0] = max(GAP[0], gap)
    if gap > 3e-5:
        k = int(np.argmax(np.abs(best.x - x0)))
        ck.fail("optimal", "%s: the cost is %g, %g is possible nearby (parameter %d: %g instead of %g)" % (what, c0, best.cost, k, best.x[k], x0[k]))
        return False
    return True


def p_freerig(ck, case):
    """rigs with more than ten instances: rig cameras are adjusted, with their priors"""
    for t, move, noise, analytic in itertools.product(("perspective", "brown", "spherical"), (0.0, 0.02), (0.0, 0.004), (True, False)):
        S = Scene((t,), rig="pair", n=12, points=POINTS[:8])
        cfg = config(align_method="naive", bundle_analytic_derivatives=analytic, loss_function="SoftLOneLoss", bundle_max_iterations=200, optimize_camera_parameters=False,
                     rig_translation_sd=0.05, rig_rotation_sd=0.02)
        rec, priors, rp = S.build(move=move, noise=noise, move_rigs=move)
        S.gps(rec, lambda k: True, acc=0.05, err=0.05 if noise else 0.0)
        before = state(rec)
        if noise:
            for j in range(2):
                p = rp["r%d" % j].pose
                rp["r%d" % j] = pymap.RigCamera(pygeometry.Pose(p.rotation + 0.01 * wob(j, 3), p.translation + 0.03 * wob(j + 5, 3)), "r%d" % j)
        orec.bundle(rec, priors, rp, [], cfg)
        ck.ev(1)
        ck.outcome(("freerig", t, move, noise, analytic))
        what = "adjusted rig of %s cameras, start %s from the truth, noise %s, analytic %s" % (t, move, noise, analytic)
        if not noise:
            bad = far(diff(state(rec), state(S.build()[0])), 1e-4)
            if bad:
                ck.fail("freerig", "%s: ends away from the truth: %s" % (what, dict(sorted(bad.items(), key=lambda x: -x[1])[:3])))
                return
        elif analytic and not optimal(ck, what, Cost(S, rec, priors, rp, [], cfg, rig_free=True)):
            return
    # a reconstruction of at most ten instances keeps its rig
    for n in (10, 11):
        S = Scene(("perspective",), rig="pair", n=n, points=POINTS[:8])
        rec, priors, rp = S.build(move_rigs=0.02)
        S.gps(rec, lambda k: True)
        before = state(rec)
        orec.bundle(rec, priors, rp, [], config(align_method="naive"))
        moved = any(v > 1e-9 for k, v in diff(state(rec), before).items() if k[0] == "rig camera")
        ck.ev(1)
        ck.expect(moved == (n > 10), "freerig", "rig cameras of a reconstruction of %d instances %s" % (n, "moved" if moved else "did not move"))
    # images without a rig have rig cameras of their own, which stay where they are
    for n in (4, 12):
        S = Scene(("perspective",), rig=None, n=n, points=POINTS[:8])
        rec, priors, rp = S.build(move=0.02)
        S.gps(rec, lambda k: True)
        before = state(rec)
        orec.bundle(rec, priors, rp, [], config(align_method="naive"))
        moved = {k: v for k, v in diff(state(rec), before).items() if k[0] == "rig camera" and v > 1e-9}
        ck.ev(1)
        ck.expect(not moved, "freerig", "rig cameras of %d images without a rig moved: %s" % (n, moved))
