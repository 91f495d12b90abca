"""C11: pair selection proposes exactly the pairs its strategy and settings describe."""
import itertools
import math

import c34
import numpy as np
from opensfm import config as osfm_config
from opensfm import geo, pairs_selection as ps

LEVEL = "exploration"
RULE = ("all placements of up to 5 images on a small set of positions / capture times / sequence orders, all splits into "
        "reference and candidate images, all neighbour limits and distances: selected pairs against brute-force ranking; all "
        "affinity orders and camera assignments for the retrieval step; all on/off combinations of strategies through "
        "match_candidates_from_metadata; non-trivial: distinct (setting, result)")
ASSUMPTIONS = ["positions and times in general position except where ties are the point; then only the number and rank of "
               "the neighbours is constrained"]

REF = geo.TopocentricConverter(47.0, 8.5, 300)
# distances all different and away from the limits used
XY = [(0.0, 0.0), (13.0, 4.0), (-31.0, 17.0), (90.0, -52.0), (101.0, 77.0), (-160.0, 3.0), (13.0, 4.0)]
TIMES = [0.0, 1.0, 3.5, 10.0, 26.0, 100.0, -7.0]


def exif(i, xy=None, t=0.0, alt=0.0, cam="c", **k):
    d = {"capture_time": t, "camera": cam}
    if xy is not None:
        lat, lon, _ = REF.to_lla(xy[0], xy[1], 0.0)
        d["gps"] = {"latitude": lat, "longitude": lon, "altitude": alt}
    d.update(k)
    return d


def sp(a, b):
    return (a, b) if a < b else (b, a)


def splits(names, quick):
    """(images_ref, images_cand) pairs: everything, disjoint, overlapping"""
    n = len(names)
    out = [(list(names), list(names)), (list(names)[::-1], list(names))]
    for mask in itertools.product(range(3), repeat=n):
        ref = [x for x, m in zip(names, mask) if m != 1]
        cand = [x for x, m in zip(names, mask) if m != 0]
        if ref and cand and (ref, cand) not in out:
            out.append((ref, cand))
    return out


def brute(ref, cand, dist, k, maxd):
    """Union over reference images of the k nearest other candidates within maxd (k 0: any number)."""
    out = set()
    for r in ref:
        near = sorted((dist(r, c), c) for c in cand if c != r and (maxd <= 0 or dist(r, c) < maxd))
        for _, c in near[:(k if k > 0 else None)]:
            out.add(sp(r, c))
    return out


def ranked_ok(ref, cand, dist, k, maxd, got):
    """With ties: each pair is justified by one of its ends, and each reference image has its neighbours."""
    for a, b in got:
        ok = False
        for r, c in ((a, b), (b, a)):
            if r in ref and c in cand:
                closer = sum(1 for x in cand if x != r and dist(r, x) < dist(r, c) - 1e-6)
                ok |= (k <= 0 or closer < k + 1) and (maxd <= 0 or dist(r, c) < maxd)
        if not ok or a >= b:
            return "pair (%s, %s) is not among the nearest" % (a, b)
    for r in ref:
        near = [c for c in cand if c != r and (maxd <= 0 or dist(r, c) < maxd)]
        n = min(len(near), k) if k > 0 else len(near)
        far = sorted(dist(r, c) for c in near)
        have = [c for c in near if sp(r, c) in got]
        for c in near:
            if n and dist(r, c) < far[n - 1] - 1e-6 and c not in have:
                return "%s misses its neighbour %s" % (r, c)
        if len(have) < n:
            return "%s has %d of its %d neighbours" % (r, len(have), n)
    return None


def cases(ck):
    out = []
    nmax = 4 if ck.quick else 5
    for n in range(2, nmax + 1):
        for pos in itertools.combinations(range(len(XY)), n):
            out.append(["distance", list(pos)])
        for ts in itertools.permutations(range(len(TIMES)), n) if n < 4 else itertools.combinations(range(len(TIMES)), n):
            out.append(["time", list(ts)])
    for n in range(1, 8):
        out.append(["order", n])
    for n in range(2, 5):
        out.append(["affinity", n])
    for pos in itertools.combinations(range(6), 4):
        out.append(["graph", list(pos)])
    for pos in itertools.combinations(range(6), 5):
        out.append(["graph", list(pos)])
    for mask in range(32):
        for gps in (0, 1, 2):
            out.append(["metadata", mask, gps])
    for pos in itertools.combinations(range(len(XY)), 3):
        out.append(["far", list(pos)])
    out += [["square", a] for a in (0.0, 0.4, 1.1)]
    out.append(["opk"])
    for n in (2, 3, 4, 5):
        for k in range(3 if ck.quick else 12):
            out.append(["ground", n, k])
    for kind in ("bow", "vlad"):
        for digits in range(0, 81, 1 if not ck.quick else 5):
            out.append(["retrieval", kind, digits])
    for n in range(1, 5):
        out.append(["ordered", n])
    return out


def check(ck, case):
    globals()["check_" + case[0]](ck, *case[1:])


def check_distance(ck, pos):
    names = ["im%d.jpg" % i for i in range(len(pos))]
    xy = {nm: XY[p] for nm, p in zip(names, pos)}
    tie = len(set(xy.values())) < len(names)
    exifs = {nm: exif(i, xy[nm], alt=1000.0 * i) for i, nm in enumerate(names)}

    def dist(a, b):
        return math.hypot(xy[a][0] - xy[b][0], xy[a][1] - xy[b][1])
    for ref, cand in splits(names, ck.quick):
        for k in (0, 1, 2, 3, 9):
            for maxd in (0.0, 60.0, 150.0):
                r0, c0 = list(ref), list(cand)
                got = ps.match_candidates_by_distance(r0, c0, exifs, REF, k, maxd)
                ck.ev()
                what = "images at %r, ref %r, candidates %r, %d neighbors, distance %g" % (xy, ref, cand, k, maxd)
                ck.expect((r0, c0) == (ref, cand), "distance-args", what + ": arguments changed")
                if k == 0 and maxd == 0:
                    ck.expect(not got, "distance-off", "%s: %r" % (what, got))
                    continue
                if tie:
                    err = ranked_ok(ref, cand, dist, k, maxd, got)
                    ck.expect(err is None, "distance-ties", "%s: %s: %r" % (what, err, got))
                else:
                    want = brute(ref, cand, dist, k, maxd)
                    ck.expect(got == want, "distance", "%s: %r instead of %r" % (what, sorted(got), sorted(want)))
                ck.outcome(("d", tuple(pos), len(ref), len(cand), k, maxd, frozenset(got)))
        # an image without GPS: none of the pairs
        for nm in set(ref) | set(cand):
            e2 = dict(exifs)
            e2[nm] = exif(0)
            got = ps.match_candidates_by_distance(list(ref), list(cand), e2, REF, 2, 0.0)
            ck.ev()
            ck.expect(not got, "distance-nogps", "%r without GPS, ref %r, candidates %r: %r" % (nm, ref, cand, got))
    ck.expect(ps.match_candidates_by_distance(names, [], exifs, REF, 3, 0) == set(), "distance-empty", "no candidates: pairs")
    ck.sample({"positions": pos})


def check_far(ck, pos):
    """without a limit, however far apart the images are"""
    names = ["im%d.jpg" % i for i in range(len(pos))]
    for scale in (7.0, 60.0, 400.0):
        xy = {nm: (XY[p][0] * scale, XY[p][1] * scale) for nm, p in zip(names, pos)}
        if len(set(xy.values())) < len(names):
            continue
        exifs = {nm: exif(i, xy[nm]) for i, nm in enumerate(names)}

        def dist(a, b):
            return math.hypot(xy[a][0] - xy[b][0], xy[a][1] - xy[b][1])
        for ref, cand in splits(names, ck.quick):
            for k in (1, 2):
                got = ps.match_candidates_by_distance(list(ref), list(cand), exifs, REF, k, 0.0)
                ck.ev()
                ck.expect(got == brute(ref, cand, dist, k, 0.0), "distance-far", "images at %r, ref %r, candidates %r, %d neighbors: %r" % (xy, ref, cand, k, sorted(got)))
                ck.outcome(("far", tuple(pos), scale, len(ref), len(cand), k, frozenset(got)))
            for r in (1, 3):
                maxd = r * 100.0 * scale + 3
                got = ps.match_candidates_by_distance(list(ref), list(cand), exifs, REF, 0, maxd)
                ck.ev()
                ck.expect(got == brute(ref, cand, dist, 0, maxd), "distance-far", "images at %r, ref %r, candidates %r, within %g: %r" % (xy, ref, cand, maxd, sorted(got)))


def check_square(ck, angle):
    """the further rounds find the edges which the triangulation leaves out by chance"""
    c, s = math.cos(angle), math.sin(angle)
    names = ["im%d" % i for i in range(4)]
    exifs = {nm: exif(i, (50 * (c * x - s * y), 50 * (s * x + c * y))) for i, (nm, (x, y)) in enumerate(zip(names, [(-1, -1), (1, -1), (1, 1), (-1, 1)]))}
    for seed in range(4 if ck.quick else 20):
        np.random.seed(seed)
        got = ps.match_candidates_by_graph(list(names), list(names), exifs, REF, 60)
        ck.ev()
        ck.expect(got == {sp(a, b) for a, b in itertools.combinations(names, 2)}, "graph-square", "square turned by %g, 60 rounds: %r" % (angle, sorted(got)))
        ck.outcome(("square", angle, seed))


def check_time(ck, ts):
    names = ["im%d.jpg" % i for i in range(len(ts))]
    t = {nm: TIMES[p] for nm, p in zip(names, ts)}
    exifs = {nm: exif(0, None, t[nm]) for nm in names}

    def dist(a, b):
        return abs(t[a] - t[b])
    for ref, cand in splits(names, ck.quick):
        for k in (0, 1, 2, 3, 9):
            got = ps.match_candidates_by_time(list(ref), list(cand), exifs, k)
            ck.ev()
            want = brute(ref, cand, dist, k, 0) if k else set()
            err = None
            if len({round(abs(a - b), 6) for a, b in itertools.combinations(t.values(), 2)}) < len(ts) * (len(ts) - 1) // 2:
                err = ranked_ok(ref, cand, dist, k, 0, got) if k else None
            elif got != want:
                err = "instead of %r" % sorted(want)
            ck.expect(err is None, "time", "times %r, ref %r, candidates %r, %d neighbors: %r: %s" % (t, ref, cand, k, sorted(got), err))
            ck.outcome(("t", tuple(ts), len(ref), len(cand), k, frozenset(got)))


def check_order(ck, n):
    names = ["im%d.jpg" % i for i in range(n)]
    for k in range(0, 9):
        got = ps.match_candidates_by_order(list(names), list(names), k)
        ck.ev()
        h = (k + 1) // 2
        want = {sp(a, b) for i, a in enumerate(names) for j, b in enumerate(names) if 0 < abs(i - j) <= h}
        ck.expect(got == want, "order", "%d images, %d neighbors: %r instead of %r" % (n, k, sorted(got), sorted(want)))
        ck.outcome(("o", n, k, frozenset(got)))


def check_affinity(ck, n):
    names = ["im%d" % i for i in range(n + 1)]
    im, others = names[0], names[1:]
    for perm in itertools.permutations(range(n)):
        for cams in itertools.product("ab", repeat=n):
            exifs = {nm: {"camera": c} for nm, c in zip(names, ("a",) + cams)}
            dists = [0.5 + p for p in perm]
            for k in (1, 2, 3):
                for other_cams in (False, True):
                    got = ps.construct_pairs([(im, list(dists), list(others))], k, exifs, other_cams)
                    ck.ev()
                    order = sorted(range(n), key=lambda i: dists[i])
                    if other_cams:
                        keep = [i for i in order if cams[i] == "a"][:k] + [i for i in order if cams[i] != "a"][:k]
                    else:
                        keep = order[:k]
                    want = {sp(im, others[i]): dists[i] for i in keep}
                    ck.expect({k2: float(v) for k2, v in got.items()} == want, "affinity",
                              "distances %r, cameras %r, %d neighbors, other cameras %r: %r instead of %r" % (
                                  dists, cams, k, other_cams, got, want))
                    ck.outcome(("a", perm, cams, k, other_cams))
    # several images: the union
    res = [("x", [3.0, 1.0], ["y", "z"]), ("y", [2.0, 3.0], ["z", "x"]), ("w", [], [])]
    got = ps.construct_pairs(res, 1, {}, False)
    ck.expect(set(got) == {("x", "z"), ("y", "z")}, "affinity", "several images: %r" % (got,))


def delaunay_edges(pts):
    n = len(pts)
    out = set()
    for a, b, c in itertools.combinations(range(n), 3):
        (ax, ay), (bx, by), (cx, cy) = pts[a], pts[b], pts[c]
        d = 2 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by))
        if abs(d) < 1e-9:
            continue
        ux = ((ax * ax + ay * ay) * (by - cy) + (bx * bx + by * by) * (cy - ay) + (cx * cx + cy * cy) * (ay - by)) / d
        uy = ((ax * ax + ay * ay) * (cx - bx) + (bx * bx + by * by) * (ax - cx) + (cx * cx + cy * cy) * (bx - ax)) / d
        r2 = (ax - ux) ** 2 + (ay - uy) ** 2
        if all((x - ux) ** 2 + (y - uy) ** 2 > r2 + 1e-6 for i, (x, y) in enumerate(pts) if i not in (a, b, c)):
            out |= {(a, b), (b, c), (a, c)}
    return out


def check_graph(ck, pos):
    names = ["im%d.jpg" % i for i in range(len(pos))]
    xy = {nm: XY[p] for nm, p in zip(names, pos)}
    exifs = {nm: exif(i, xy[nm]) for i, nm in enumerate(names)}
    edges = {sp(names[a], names[b]) for a, b in delaunay_edges([xy[n] for n in names])}
    for ref, cand in splits(names, ck.quick):
        for rounds in (0, 1, 3):
            np.random.seed(1)
            got = ps.match_candidates_by_graph(list(ref), list(cand), exifs, REF, rounds)
            ck.ev()
            legal = {sp(a, b) for a in ref for b in cand if a != b}
            what = "positions %r, ref %r, candidates %r, %d rounds" % (xy, ref, cand, rounds)
            if rounds == 0 or len(cand) < 4:
                ck.expect(not got, "graph-off", "%s: %r" % (what, got))
                continue
            ck.expect(got <= legal, "graph-legal", "%s: %r are no pair of a reference and a candidate" % (what, got - legal))
            ck.expect(edges & legal <= got, "graph", "%s: triangulation edges %r are missing" % (what, (edges & legal) - got))
            ck.outcome(("g", tuple(pos), len(ref), len(cand), rounds, frozenset(got)))


class Data:
    def __init__(self, **cfg):
        self.config = osfm_config.default_config()
        self.config.update(cfg)
        self.inited = 0

    def init_reference(self, images=None):
        self.inited += 1

    def load_reference(self):
        return REF


def check_metadata(ck, mask, gps):
    """gps 0: none, 1: all, 2: some images have GPS"""
    n = 5
    names = ["im%d.jpg" % i for i in range(n)]
    cfg = {"matching_gps_distance": 95.0 if mask & 1 else 0, "matching_gps_neighbors": 2 if mask & 2 else 0,
           "matching_time_neighbors": 1 if mask & 4 else 0, "matching_order_neighbors": 2 if mask & 8 else 0,
           "matching_graph_rounds": 2 if mask & 16 else 0}
    exifs = {nm: exif(i, XY[i] if gps == 1 or (gps == 2 and i % 2) else None, TIMES[(i * 3) % 7]) for i, nm in enumerate(names)}
    for over in (False, True):
        for ref, cand in splits(names, ck.quick)[:40 if ck.quick else None]:
            data = Data(**({} if over else cfg))
            before = dict(data.config)
            ref = sorted(ref)
            got, report = ps.match_candidates_from_metadata(list(ref), list(cand), exifs, data, dict(cfg) if over else {})
            ck.ev()
            what = "settings %r (override %r), gps %d, ref %r, candidates %r" % (cfg, over, gps, ref, cand)
            usegps = gps == 1
            k = cfg["matching_gps_neighbors"] if usegps else 0
            maxd = cfg["matching_gps_distance"] if usegps else 0
            tn, on = cfg["matching_time_neighbors"], cfg["matching_order_neighbors"]
            gr = cfg["matching_graph_rounds"] if usegps else 0
            edges, extra = set(), set()
            if not (k or maxd or tn or on or gr):
                want = {sp(a, b) for a in ref for b in cand if a != b}
                parts = (0, 0, 0)
            else:
                d = brute(ref, cand, lambda a, b: math.hypot(*(np.array(XY[int(a[2])]) - XY[int(b[2])])), k, maxd) if (k or maxd) else set()
                t = brute(ref, cand, lambda a, b: abs(exifs[a]["capture_time"] - exifs[b]["capture_time"]), tn, 0) if tn else set()
                o = ps.match_candidates_by_order(list(ref), list(cand), on)
                if gr and len(cand) >= 4:
                    images = sorted(set(ref) | set(cand))
                    legal = {sp(a, b) for a in ref for b in cand if a != b}
                    edges = {sp(images[a], images[b]) for a, b in delaunay_edges([XY[int(x[2])] for x in images])} & legal
                    extra = ({sp(*p) for p in got} & legal) - edges - d - t - o  # the triangulations of jittered positions
                want = d | t | o | edges | extra
                parts = (len(d), len(t), len(o))
            ck.expect({sp(*p) for p in got} == want, "metadata", "%s: %r instead of %r" % (what, sorted(got), sorted(want)))
            ck.expect(len(got) == len({sp(*p) for p in got}), "metadata-unique", "%s: duplicates in %r" % (what, got))
            ck.expect(all(a in ref for a, _ in got), "metadata-order", "%s: first images of %r not in ref" % (what, got))
            ck.expect(len(edges | extra) <= report["num_pairs_graph"] <= len(got) and (edges or not report["num_pairs_graph"]), "metadata-report", "%s: %r" % (what, report))
            ck.expect((report["num_pairs_distance"], report["num_pairs_time"], report["num_pairs_order"]) == parts,
                      "metadata-report", "%s: %r, expected %r" % (what, report, parts))
            ck.expect(data.config == before, "metadata-config", what + ": the configuration changed")
            ck.outcome(("m", mask, gps, over, len(ref), len(cand), frozenset(got)))


def check_opk(ck):
    """images that look sideways are compared by the ground they look at"""
    h = 100.0
    for omega in (-40, -20, 20, 40):
        for phi in (0, -30, 30):
            names = ["im%d" % i for i in range(4)]
            tgt = [(0.0, 0.0), (1.0, 0.0), (60.0, 0.0), (61.5, 1.0)]
            # without orientation: selection by position
            exifs = {nm: exif(i, t, opk={"omega": float(omega), "phi": float(phi), "kappa": 10.0}) for i, (nm, t) in enumerate(zip(names, tgt))}
            got = ps.match_candidates_by_distance(list(names), list(names), exifs, REF, 1, 0)
            ck.ev()
            # same viewing direction for all: the same neighbours as by position
            ck.expect(got == {("im0", "im1"), ("im2", "im3")}, "opk", "parallel views omega %d phi %d: %r" % (omega, phi, got))
            ck.outcome(("opk", omega, phi, frozenset(got)))
    from opensfm import geometry
    # two pairs of images facing each other: the ones that look at the same ground are paired
    for half in (20.0, 35.0):
        t = math.tan(math.radians(half))
        xs = [0.0, 2 * h * t, 7.0, 2 * h * t + 7.0]
        sgn = [1, -1, 1, -1]
        exifs = {}
        for i in range(4):
            # find the phi whose viewing direction goes towards sgn along x
            best = None
            for phi in (half, -half, 180 - half, half - 180):
                z = geometry.rotation_from_opk(0.0, math.radians(phi), 0.0)[2]
                z = z / (abs(z[2]) if z[2] else 1)
                if best is None or z[0] * sgn[i] > best[0]:
                    best = (z[0] * sgn[i], phi)
            exifs["im%d" % i] = exif(i, (xs[i], 0.0), opk={"omega": 0.0, "phi": best[1], "kappa": 0.0})
        names = sorted(exifs)
        p = ps.get_representative_points(names, exifs, REF)
        ck.ev()
        d = {(a, b): np.hypot(*(p[a] - p[b])[:2]) for a, b in itertools.combinations(names, 2)}
        ck.expect(d[("im0", "im1")] < 0.35 * (xs[1] - xs[0]) and abs(d[("im0", "im2")] - 7) < 1 , "opk-converging",
                  "converging views with half angle %g: distances of the ground points %r" % (half, d))
        ck.outcome(("conv", half))


def lookat(o, p, k):
    """Viewing direction of a camera with omega, phi, kappa in degrees."""
    o, p = math.radians(o), math.radians(p)
    # down at zero, turned by omega about x, then phi about the turned y
    return np.array([-math.sin(p), math.sin(o) * math.cos(p), -math.cos(o) * math.cos(p)])


def check_ground(ck, n, k):
    """images with orientation are compared by the points they look at, on the plane that brings them closest together"""
    rng = np.random.RandomState(10 * n + k)
    names = ["im%d" % i for i in range(n)]
    for trial in range(60 if ck.quick else 200):
        xy = {nm: (float(rng.uniform(-300, 300)), float(rng.uniform(-300, 300))) for nm in names}
        opk = {nm: (float(rng.uniform(-50, 50)), float(rng.uniform(-50, 50)), float(rng.uniform(-180, 180))) for nm in names}
        drop = set()
        if trial % 4 == 1:
            opk = {nm: (20.0, -10.0, float(i)) for i, nm in enumerate(names)}
            xy = {nm: xy[names[0]] for nm in names} if trial % 8 == 1 else xy
        if trial % 5 == 2:
            drop = {names[-1]}
        exifs = {nm: exif(i, None if nm in drop else xy[nm], opk=dict(zip(("omega", "phi", "kappa"), opk[nm]))) for i, nm in enumerate(names)}
        what = "positions %r, angles %r, without GPS %r" % (xy, opk, sorted(drop))
        try:
            got = ps.get_representative_points(list(names), exifs, REF)
            pairs = ps.match_candidates_by_distance(list(names), list(names), exifs, REF, 1, 0)
        except Exception as e:
            ck.fail("ground", "%s: raised %r" % (what, e))
            continue
        ck.ev()
        have = [nm for nm in names if nm not in drop]
        d = {nm: lookat(*opk[nm]) for nm in have}
        d = {nm: v[:2] / abs(v[2]) for nm, v in d.items()}
        # squared size of the bounding box over the heights, as a parabola
        hs = np.arange(1, 8000, 100) / 8000.0
        P = np.array([[np.array(xy[nm]) + d[nm] * h * 8000 for nm in have] for h in hs])
        size = (np.ptp(P[:, :, 0], axis=1) ** 2 + np.ptp(P[:, :, 1], axis=1) ** 2)
        a, b, _ = np.linalg.lstsq(np.stack([hs ** 2, hs, np.ones_like(hs)], 1), size, rcond=None)[0]
        par = max(np.abs(d[x] - d[have[0]]).max() for x in have) < 1e-9
        best = 1.0 if par else max(-b / (2 * a), 0) * 8000
        if not par and abs(best) < 1:
            continue
        if not par and -b / (2 * a) < 0:
            best = 1.0
        ck.expect(set(got) == set(have), "ground-images", "%s: points for %r" % (what, sorted(got)))
        ck.expect(not drop or not pairs, "ground-nogps", "%s: %r" % (what, pairs))
        rel = {}
        for nm in have:
            w = np.array(xy[nm]) + d[nm] * best
            w0 = np.array(xy[have[0]]) + d[have[0]] * best
            g = np.asarray(got.get(nm, [np.nan] * 3), float) - np.asarray(got[have[0]], float)
            rel[nm] = w - w0
            ck.expect(np.abs(g[:2] - (w - w0)).max() < 1e-3 * (1 + abs(best)) + 0.05, "ground", "%s at height %g: %s is %r from %s, expected %r" % (what, best, nm, g[:2].tolist(), have[0], (w - w0).tolist()))
        if not par:
            ck.expect(np.abs(np.asarray(got[have[0]], float)[:2] - np.array(xy[have[0]]) - d[have[0]] * best).max() < 0.05 + 1e-3 * best, "ground", "%s at height %g: %r looks at %r" % (what, best, have[0], got[have[0]]))
        if not drop:
            near = {nm: sorted(math.dist(rel[nm], rel[x]) for x in names if x != nm) for nm in names}
            if all(len(v) < 2 or v[1] - v[0] > 2 + 1e-2 * best for v in near.values()):
                want = brute(names, names, lambda x, y: math.dist(rel[x], rel[y]), 1, 0)
                ck.expect(pairs == want, "ground-pairs", "%s: %r instead of %r" % (what, sorted(pairs), sorted(want)))
        ck.outcome((n, k, trial))


def check_retrieval(ck, kind, digits):
    c34.check_select(ck, kind, digits)


def check_ordered(ck, n):
    names = ["i%d" % i for i in range(n)]
    allp = list(itertools.combinations(names, 2))
    for r in range(len(allp) + 1):
        for pairs in itertools.combinations(allp, r):
            for m in range(1, 2 ** n):
                ref = [x for i, x in enumerate(names) if m >> i & 1]
                legal = {p for p in pairs if p[0] in ref or p[1] in ref}
                got = ps.ordered_pairs(set(legal), list(ref))
                ck.ev()
                ck.expect(sorted(sp(*p) for p in got) == sorted(legal) and all(a in ref for a, _ in got), "ordered",
                          "pairs %r with reference images %r: %r" % (legal, ref, got))
                ck.outcome(("or", frozenset(legal), m))
