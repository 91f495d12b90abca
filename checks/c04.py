"""C04: tracks are the connected components of the match graph that are long enough and see each image once."""
import itertools

import numpy as np
from opensfm import features, masking, pymap, tracking, unionfind

LEVEL = "exploration"
RULE = ("all sets of feature matches among 4 images x 2 features up to a size (and every processing order of the smaller "
        "ones) through create_tracks_manager, compared with connected components found by search; all union sequences for "
        "the union-find; feature attributes, depth priors, missing images; load_features/load_matches over all subsets of "
        "available data; non-trivial: at least one track survives or one is rejected")

IMS = ["i0", "i1", "i2", "i3"]
NF = 3


def feats(k):
    rng = np.arange(12).reshape(4, 3) + 1
    pts, cols, seg, ins, dep = {}, {}, {}, {}, {}
    for i, im in enumerate(IMS):
        pts[im] = np.array([[i + f / 10.0, -i - f / 7.0, 1 + i + f] for f in range(NF)])
        cols[im] = np.array([[10 * i + f, 20 * i + f, 30 * i + f] for f in range(NF)])
        if i % 2 == 0:
            seg[im] = np.array([i + f for f in range(NF)])
        if i == 2:
            ins[im] = np.array([2 * i + f + 1 for f in range(NF)])
        if i in (1, 2):
            dep[im] = np.array([0.25 * (i + 1), np.nan if i == 1 else np.inf, 3.5])
    return pts, cols, seg, ins, dep


ALL = [((a, f), (b, g)) for a, b in itertools.combinations(range(4), 2) for f in range(2) for g in range(2)]


def components(edges):
    adj = {}
    for x, y in edges:
        adj.setdefault(x, set()).add(y)
        adj.setdefault(y, set()).add(x)
    seen, out = set(), []
    for n in sorted(adj):
        if n in seen:
            continue
        todo, comp = [n], set()
        while todo:
            v = todo.pop()
            if v in comp:
                continue
            comp.add(v)
            todo += list(adj[v])
        seen |= comp
        out.append(frozenset(comp))
    return out


def run(edges, min_length, order, data, drop=()):
    matches = {}
    for (a, f), (b, g) in edges:
        if order & 1:
            a, f, b, g = b, g, a, f
        matches.setdefault((IMS[a], IMS[b]), []).append((f, g))
    pts, cols, seg, ins, dep = data
    return tracking.create_tracks_manager({k: v for k, v in pts.items() if k not in drop}, cols, seg, ins, matches, min_length,
                                          dep, True, 1.0)


def content(tm):
    return sorted(tuple(sorted((s, int(o.id)) for s, o in tm.get_track_observations(t).items())) for t in tm.get_track_ids())


def expected(edges, min_length):
    good = [c for c in components(edges) if len(c) >= min_length and len({i for i, _ in c}) == len(c)]
    return sorted(tuple(sorted((IMS[i], f) for i, f in c)) for c in good)


def check_obs(ck, tm, data, edges):
    pts, cols, seg, ins, dep = data
    for t in tm.get_track_ids():
        for s, o in tm.get_track_observations(t).items():
            f = int(o.id)
            want = (tuple(pts[s][f]), tuple(cols[s][f]), int(seg[s][f]) if s in seg else -1, int(ins[s][f]) if s in ins else -1)
            got = (tuple(o.point) + (o.scale,), tuple(o.color), int(o.segmentation), int(o.instance))
            ck.expect(got == want, "observation", "edges %r: feature %d of %s became %r instead of %r" % (edges, f, s, got, want))
            d = dep[s][f] if s in dep else np.nan
            if np.isfinite(d):
                ok = (o.depth_prior is not None and o.depth_prior.value == d and o.depth_prior.is_radial
                      and abs(o.depth_prior.std_deviation - max(d, 1.0)) < 1e-12)
            else:
                ok = o.depth_prior is None
            ck.expect(ok, "depth", "feature %d of %s with depth %r has prior %r" % (f, s, d, o.depth_prior))


def cases(ck):
    n = 5 if ck.quick else 6
    out = [["edges", k, part] for k in range(0, n + 1) for part in range(1 if k < 3 else 16 if k < 5 else 64)]
    out += [["orders", i] for i in range(24)]
    out += [["chains", i] for i in range(8)]
    out += [["uf", i] for i in range(10)]
    out += [["drop", 0], ["load", 0]]
    return out


def check(ck, case):
    kind = case[0]
    data = feats(0)
    if kind == "edges":
        _, k, part = case
        parts = 1 if k < 3 else 16 if k < 5 else 64
        for n, edges in enumerate(itertools.combinations(ALL, k)):
            if n % parts != part:
                continue
            for ml in (1, 2, 3, 4):
                tm = run(edges, ml, n, data)
                got, want = content(tm), expected(edges, ml)
                ck.ev()
                ck.outcome(tuple(want))
                ck.expect(got == want, "tracks", "matches %r, min length %d: tracks %r instead of %r" % (edges, ml, got, want))
                if ml == 2 and n % 5 == 0:
                    check_obs(ck, tm, data, edges)
        ck.sample({"matches": repr(edges) if k else "none", "tracks": repr(want)})
    elif kind == "orders":
        # every order and direction of 4 matches gives the same tracks
        sets = list(itertools.combinations(ALL, 4))
        for edges in sets[case[1] * 7::24 * 40]:
            want = None
            for perm in itertools.permutations(edges):
                for flips in (0, 1):
                    got = content(run(perm, 2, flips, data))
                    ck.ev()
                    want = expected(edges, 2)
                    ck.expect(got == want, "order", "matches %r in this order: tracks %r instead of %r" % (perm, got, want))
                    ck.outcome(tuple(want))
    elif kind == "chains":
        # long chains over more features than the small tables
        names = ["im%02d" % i for i in range(12)]
        pts = {n: np.array([[i, f, 1.0] for f in range(5)]) for i, n in enumerate(names)}
        cols = {n: np.zeros((5, 3)) for n in names}
        for shift in range(5):
            for step in (1, 2, 3):
                for seed in (0, 1, 2, 3):
                    pairs = [(i, i + step) for i in range(0, 12 - step)]
                    pairs = pairs[::-1] if seed & 1 else pairs
                    pairs = pairs[::2] + pairs[1::2] if seed & 2 else pairs
                    edges, matches = [], {}
                    for a, b in pairs:
                        for f in range(5):
                            g = (f + (shift if a % 4 == case[1] % 4 else 0)) % 5
                            edges.append(((a, f), (b, g)))
                            matches.setdefault((names[a], names[b]), []).append((f, g))
                    tm = tracking.create_tracks_manager(pts, cols, {}, {}, matches, 2, {})
                    want = sorted(tuple(sorted((names[i], f) for i, f in c)) for c in components(edges)
                                  if len({i for i, _ in c}) == len(c))
                    ck.ev()
                    ck.outcome(tuple(want))
                    ck.expect(content(tm) == want, "chain", "shift %d step %d" % (shift, step))
    elif kind == "uf":
        # all sequences of unions (2 or 3 arguments) over 5 items
        items = "abcde"
        ops = list(itertools.combinations(items, 2)) + [("a", "c", "e"), ("b", "b"), ("d", "b", "a"), ("e", "d", "e")]
        first = ops[case[1]] if case[1] < len(ops) else ops[0]
        for rest in itertools.product(ops, repeat=3 if ck.quick else 4):
            uf = unionfind.UnionFind()
            edges = []
            for op in (first,) + rest:
                uf.union(*op)
                edges += [(op[0], o) for o in op]
            want = components(edges)
            groups = {}
            for x in uf:
                groups.setdefault(uf[x], set()).add(x)
            got = {frozenset(v) for v in groups.values()}
            ck.ev()
            ck.outcome(tuple(sorted(tuple(sorted(w)) for w in want)))
            ck.expect(got == set(want) and all(k in v for k, v in groups.items()), "unionfind",
                      "unions %r give %r" % ((first,) + rest, groups))
    elif kind == "drop":
        # images without features contribute no observation, the others keep theirs
        for edges in itertools.combinations(ALL, 3):
            for drop in IMS:
                tm = run(edges, 2, 0, data, drop=(drop,))
                want = [tuple(x for x in t if x[0] != drop) for t in expected(edges, 2)]
                ck.ev()
                ck.expect(content(tm) == sorted(w for w in want if w), "drop", "matches %r without %s" % (edges, drop))
    else:
        load(ck)


class FakeData:
    def __init__(self, fs, ms):
        self.fs, self.ms = fs, ms

    def load_features(self, im):
        return self.fs.get(im)

    def load_matches(self, im):
        if im not in self.ms:
            raise IOError("no matches")
        return self.ms[im]


def load(ck):
    for have in itertools.product([0, 1, 2, 3, 4, 5], repeat=3):
        fs = {}
        for i, h in enumerate(have):
            if h:
                sem = None
                if 2 <= h <= 4:
                    sem = features.SemanticData(np.array([1, 2]) + i, np.array([3, 4]) + i if h in (3, 4) else None,
                                                [{"name": "x"}])
                fs[IMS[i]] = features.FeaturesData(np.arange(8.0).reshape(2, 4) + i, None, np.ones((2, 3)) * i, sem,
                                                   np.array([1.0, 2.0]) + i if h in (3, 5) else None)
        d = FakeData(fs, {})
        f, c, s, n, dp = tracking.load_features(d, IMS[:3])
        ck.ev()
        ck.outcome(have)
        ck.expect(set(f) == set(fs) == set(c) and set(s) == {IMS[i] for i, h in enumerate(have) if 2 <= h <= 4}
                  and set(n) == {IMS[i] for i, h in enumerate(have) if h in (3, 4)} and set(dp) == {IMS[i] for i, h in enumerate(have) if h in (3, 5)}, "load_features", "availability %r" % (have,))
        for im in f:
            ck.expect(f[im].shape == (2, 3) and (f[im] == fs[im].points[:, :3]).all() and (c[im] == fs[im].colors).all(),
                      "load_features", "content for %r" % (have,))
            for what, of in ((s, lambda d: d.semantic.segmentation), (n, lambda d: d.semantic.instances), (dp, lambda d: d.depths)):
                ck.expect(im not in what or what[im].tolist() == of(fs[im]).tolist(), "load_features", "content for %r" % (have,))
    pairs = list(itertools.permutations(IMS[:3], 2))
    for keep in range(64):
        ms = {}
        for i, (a, b) in enumerate(pairs):
            if keep >> i & 1:
                ms.setdefault(a, {})[b] = [(i, i + 1)]
        for ims in (IMS[:3], IMS[:2], IMS[1:3]):
            got = tracking.load_matches(FakeData({}, ms), ims)
            want = {(a, b): v for a in ms for b, v in ms[a].items() if a in ims and b in ims}
            ck.ev()
            ck.expect(got == want, "load_matches", "of %r for %r: %r" % (ms, ims, got))
