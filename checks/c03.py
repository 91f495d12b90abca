"""C03: a tracks table answers every query like the set of (shot, track, observation) triples that was put in;
sub-tables and merges are the restriction and the union modulo shared features."""
import itertools

import numpy as np
import scene
from opensfm import pymap, tracking

LEVEL = "model_checking"
RULE = ("all add/remove histories up to a depth over 2x2 cells (BFS on distinct contents), all 512 tables over 3 shots and 3 "
        "tracks with every sub-selection of shots and tracks (unknown ids included), all pairs of tables over 2 shots, 2 "
        "tracks and 3 features for merging, triples over smaller ones; each compared with a dict of triples")
ASSUMPTIONS = ["a feature of a shot belongs to at most one track of a table",
               "whether ids without any observation left are still listed is not constrained"]

SH = ["a10.jpg", "a9.jpg", "b.jpg"]
TR = ["0", "t2", "10"]


def ob(s, t, v=0, fid=None):
    n = SH.index(s) * 7 + TR.index(t) + 31 * v
    return pymap.Observation(n + 0.5, -n - 0.25, n + 1.0, n, n + 1, n + 2, fid if fid is not None else n, n % 5 - 1, n % 3 - 1)


T = scene.obs_tuple


def compare(ck, tm, ref, known_shots, known_tracks, key, what):
    """everything readable from tm against ref: {(shot, track): tuple}"""
    bad = []
    shots, tracks = {s for s, _ in ref}, {t for _, t in ref}
    sid, tid = list(tm.get_shot_ids()), list(tm.get_track_ids())
    if len(sid) != len(set(sid)) or not (shots <= set(sid) <= set(known_shots)):
        bad.append("shot ids %r" % (sid,))
    if len(tid) != len(set(tid)) or not (tracks <= set(tid) <= set(known_tracks)):
        bad.append("track ids %r" % (tid,))
    if tm.num_shots() != len(sid) or tm.num_tracks() != len(tid):
        bad.append("counts %d %d" % (tm.num_shots(), tm.num_tracks()))
    for s in sid:
        got = {(s, t): T(o) for t, o in tm.get_shot_observations(s).items()}
        if got != {k: v for k, v in ref.items() if k[0] == s}:
            bad.append("get_shot_observations(%s) = %r" % (s, got))
    for t in tid:
        got = {(s, t): T(o) for s, o in tm.get_track_observations(t).items()}
        if got != {k: v for k, v in ref.items() if k[1] == t}:
            bad.append("get_track_observations(%s) = %r" % (t, got))
    for s in list(known_shots) + ["zz"]:
        for t in list(known_tracks) + ["zz"]:
            try:
                got = T(tm.get_observation(s, t))
            except RuntimeError:
                got = None
            if got != ref.get((s, t)):
                bad.append("get_observation(%s, %s) = %r" % (s, t, got))
    for name, fn in (("get_shot_observations", tm.get_shot_observations), ("get_track_observations", tm.get_track_observations)):
        try:
            fn("zz")
            bad.append("%s of an unknown id did not raise" % name)
        except RuntimeError:
            pass
    ck.transition()
    ck.add("traces")
    if bad:
        ck.fail(key, "%s: content %r: %s" % (what, sorted(ref), "; ".join(bad[:4])))
    return not bad


def connectivity(ref, shots=None, tracks=None):
    out = {}
    for t in {t for _, t in ref}:
        if tracks is not None and t not in tracks:
            continue
        ss = sorted(s for s, u in ref if u == t and (shots is None or s in shots))
        for p in itertools.combinations(ss, 2):
            out[p] = out.get(p, 0) + 1
    return out


def cases(ck):
    out = [["history", i] for i in range(12)]
    out += [["table", b] for b in range(0, 512, 8)]
    out += [["merge", i] for i in range(64)]
    out += [["merge3", i] for i in range(16)]
    out += [["merge1", i] for i in range(4)]
    return out


# ------------------------------------------------------------------ histories
CELLS = [(s, t) for s in SH[:2] for t in TR[:2]]
OPS = [("add", c, v) for c in CELLS for v in (0, 1)] + [("remove", c) for c in CELLS]


def apply(tm, ref, ks, kt, op):
    s, t = op[1]
    if op[0] == "add":
        tm.add_observation(s, t, ob(s, t, op[2]))
        ref[(s, t)] = T(ob(s, t, op[2]))
        ks.add(s)
        kt.add(t)
        return True
    had = (s, t) in ref
    try:
        tm.remove_observation(s, t)
    except RuntimeError:
        return not had
    ref.pop((s, t), None)
    return True


def history(ck, first):
    depth = 8 if ck.quick else 12
    seen, frontier = set(), [[OPS[first]]]
    while frontier:
        nxt = []
        for h in frontier:
            tm, ref, ks, kt = pymap.TracksManager(), {}, set(), set()
            ok = True
            for op in h:
                ok = apply(tm, ref, ks, kt, op)
            ck.expect(ok, "history", "history %r: removing an existing observation raised" % (h,))
            compare(ck, tm, ref, ks, kt, "history", "history %r" % (h,))
            k = (tuple(sorted(ref.items())), tuple(sorted(ks)), tuple(sorted(kt)))
            ck.state(k)
            if k not in seen and len(h) < depth:
                seen.add(k)
                nxt += [h + [op] for op in OPS]
        frontier = nxt


# ------------------------------------------------------------------ queries on all small tables
def table(ck, bits):
    cells = [(s, t) for s in SH for t in TR]
    keep = [c for i, c in enumerate(cells) if bits >> i & 1]
    tm, ref = pymap.TracksManager(), {}
    for s, t in (keep if bits % 2 else reversed(keep)):
        tm.add_observation(s, t, ob(s, t))
        ref[(s, t)] = T(ob(s, t))
    if not compare(ck, tm, ref, {s for s, _ in keep}, {t for _, t in keep}, "table", "table %d" % bits):
        return
    ck.state(tuple(sorted(ref)))
    shots, tracks = sorted({s for s, _ in keep}), sorted({t for _, t in keep})
    bad = []
    # pairs
    for a in shots + ["zz"]:
        for b in shots + ["zz"]:
            try:
                got = sorted((t, T(x), T(y)) for t, x, y in tm.get_all_common_observations(a, b))
            except RuntimeError:
                got = None
            want = None
            if a in shots and b in shots:
                want = sorted((t, ref[(a, t)], ref[(b, t)]) for t in tracks if (a, t) in ref and (b, t) in ref)
            if got != want:
                bad.append("get_all_common_observations(%s, %s) = %r" % (a, b, got))
            if want is not None:
                ts, p1, p2 = tracking.common_tracks(tm, a, b)
                got = sorted((t, tuple(np.round(x, 9)), tuple(np.round(y, 9))) for t, x, y in zip(ts, p1, p2))
                if got != [(t, x[:2], y[:2]) for t, x, y in want]:
                    bad.append("common_tracks(%s, %s) = %r" % (a, b, got))
            ck.transition()
    # connectivity and sub-tables of every selection
    sels = [list(c) for n in range(4) for c in itertools.combinations(SH, n)] + [["zz"], ["a10.jpg", "zz", "b.jpg"]]
    tels = [list(c) for n in range(4) for c in itertools.combinations(TR, n)] + [["zz"], ["0", "zz", "t2"], ["t2", "t2"]]
    for ss in sels:
        for tt in tels:
            got = dict(tm.get_all_pairs_connectivity(ss, tt))
            if len(set(tt)) == len(tt):
                want = connectivity(ref, ss or None, tt or None)
                if got != want:
                    bad.append("get_all_pairs_connectivity(%r, %r) = %r instead of %r" % (ss, tt, got, want))
            sub = tm.construct_sub_tracks_manager(tt, ss)
            want = {k: v for k, v in ref.items() if k[0] in ss and k[1] in tt}
            got = {(s, t): T(o) for s in sub.get_shot_ids() for t, o in sub.get_shot_observations(s).items()}
            if got != want or set(sub.get_shot_ids()) != {s for s, _ in want} or set(sub.get_track_ids()) != {t for _, t in want}:
                bad.append("construct_sub_tracks_manager(%r, %r) = %r instead of %r" % (tt, ss, got, want))
            got = {(s, t): T(o) for t in sub.get_track_ids() for s, o in sub.get_track_observations(t).items()}
            if got != want:
                bad.append("by track: construct_sub_tracks_manager(%r, %r) = %r instead of %r" % (tt, ss, got, want))
            ck.transition(2)
    if dict(tm.get_all_pairs_connectivity()) != connectivity(ref):
        bad.append("get_all_pairs_connectivity()")
    for n in (0, 1, 2, 3, 4):
        want = {p: sorted(t for t in tracks if (p[0], t) in ref and (p[1], t) in ref)
                for p, c in connectivity(ref).items() if c >= n}
        w = tracking.all_common_tracks_with_features(tm, min_common=n)
        wo = tracking.all_common_tracks_without_features(tm, min_common=n)
        if {k: sorted(v) for k, v in wo.items()} != want or {k: sorted(v[0]) for k, v in w.items()} != want:
            bad.append("all_common_tracks(%d) = %r" % (n, wo))
        for (a, b), (ts, p1, p2) in w.items():
            for t, x, y in zip(ts, p1, p2):
                if tuple(np.round(x, 9)) != ref[(a, t)][:2] or tuple(np.round(y, 9)) != ref[(b, t)][:2]:
                    bad.append("all_common_tracks features of %s %s %s" % (a, b, t))
    g = tracking.as_weighted_graph(tm)
    if set(g.nodes) != set(shots) or {tuple(sorted(e[:2])): e[2]["weight"] for e in g.edges(data=True)} != connectivity(ref):
        bad.append("as_weighted_graph")
    g = tracking.as_graph(tm)
    got = {}
    for u, v, d in g.edges(data=True):
        s, t = (u, v) if g.nodes[v]["bipartite"] == 1 else (v, u)
        got[(s, t)] = tuple(np.round(d["feature"], 9)) + (round(d["feature_scale"], 9), tuple(int(c) for c in d["feature_color"]),
                                                          d["feature_id"], d["feature_segmentation"], d["feature_instance"])
    if got != ref:
        bad.append("as_graph = %r" % (got,))
    if bad:
        ck.fail("table", "table %r: %s" % (keep, "; ".join(bad[:4])))
    ck.outcome((len(shots), len(tracks), len(ref)))


# ------------------------------------------------------------------ merging
def small_tables(nshots, ntracks, nfeat):
    """all tables over nshots x ntracks with features 0..nfeat-1; a feature may be in several tracks"""
    cells = [(s, t) for s in SH[:nshots] for t in TR[:ntracks]]
    out = []
    for fs in itertools.product([None] + list(range(nfeat)), repeat=len(cells)):
        out.append({c: f for c, f in zip(cells, fs) if f is not None})
    return out


def merge(ck, tabs):
    tms = []
    for i, tab in enumerate(tabs):
        tm = pymap.TracksManager()
        for (s, t), f in tab.items():
            tm.add_observation(s, t, ob(s, t, i, f))
        tms.append(tm)
    m = pymap.TracksManager.merge_tracks_manager(tms)
    # reference: components of the (table, track) nodes linked by a shared (shot, feature)
    nodes = {(i, t) for i, tab in enumerate(tabs) for (_, t) in tab}
    comp = {n: n for n in nodes}
    feats = {}
    for i, tab in enumerate(tabs):
        for (s, t), f in tab.items():
            feats.setdefault((s, f), []).append((i, t))
    for group in feats.values():
        for g in group[1:]:
            a, b = comp[group[0]], comp[g]
            if a != b:
                for n in nodes:
                    if comp[n] == b:
                        comp[n] = a
    want = {}
    for i, tab in enumerate(tabs):
        for (s, t), f in tab.items():
            want.setdefault(comp[(i, t)], {}).setdefault(s, set()).add(T(ob(s, t, i, f)))
    # match merged tracks with components
    left = list(want.values())
    bad = []
    for t in m.get_track_ids():
        got = {s: T(o) for s, o in m.get_track_observations(t).items()}
        hit = [w for w in left if set(w) == set(got) and all(got[s] in w[s] for s in got)]
        if not hit:
            bad.append("track %s = %r is not a union of linked tracks %r" % (t, got, left))
            break
        left.remove(hit[0])
        for s, o in got.items():
            if T(m.get_observation(s, t)) != o:
                bad.append("get_observation(%s, %s)" % (s, t))
    if not bad and left:
        bad.append("lost %r" % (left,))
    ck.transition()
    ck.add("traces")
    if bad:
        ck.fail("merge", "merging %r: %s" % (tabs, bad[0]))


def check(ck, case):
    kind, i = case
    if kind == "history":
        history(ck, i)
    elif kind == "table":
        for b in range(i, i + 8):
            table(ck, b)
    elif kind == "merge":
        tabs = small_tables(2, 2, 2 if ck.quick else 3)
        for a in tabs[i::64]:
            for b in tabs:
                merge(ck, [a, b])
                ck.state(("merge", tuple(sorted(a.items())), tuple(sorted(b.items()))))
    elif kind == "merge1":
        for a in small_tables(2, 3, 2)[i::4]:
            merge(ck, [a])
            ck.state(("merge1", tuple(sorted(a.items()))))
        for a in small_tables(1, 3, 2)[i::4]:
            for b in small_tables(1, 3, 2):
                merge(ck, [a, b])
                ck.state(("merge1", tuple(sorted(a.items())), tuple(sorted(b.items()))))
    else:
        tabs = small_tables(2, 1, 2) + ([] if ck.quick else small_tables(1, 2, 2))
        ab = list(itertools.product(tabs, repeat=3))
        for x in ab[i::16]:
            merge(ck, list(x))
            ck.state(("merge3", repr(x)))
    ck.sample(case)
