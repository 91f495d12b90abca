"""C34: visual words and VLAD describe an image's unmasked features exactly, and retrieval selects the nearest images."""
import itertools
import math
import os

import numpy as np
from memdata import MemData
from opensfm import bow, feature_loader, geo, pairs_selection as ps, pyfeatures, vlad

LEVEL = "exploration"
RULE = ("all layouts of up to three features among up to three visual words from small alphabets, all masks, types and dimensions: VLAD, histograms, "
        "nearest words and their distances against direct formulas; all splits of four images into references and candidates x neighbours x same camera "
        "rule x GPS preselection x images without features: selected pairs against brute force; non-trivial: distinct descriptors and selections")
ASSUMPTIONS = ["features never all coincide with visual words (the VLAD of such an image has no direction)", "distances have no ties",
               "BoW retrieval with a GPS preselection that leaves nothing selects nothing or all",
               "FLANN is asked for fewer words than there are (its trees fail to find all of a set), and finds the right ones for 80% of the features"]
REF = geo.TopocentricConverter(47.0, 8.5, 300)


def cases(ck):
    out = []
    for m in (1, 2, 3):
        for k in range(6 if ck.quick else 27):
            out.append(["vlad", m, k])
    out += [["vladtypes"], ["distances"]]
    for m in (3, 4, 5):
        for k in range(4 if ck.quick else 12):
            out.append(["words", m, k])
    for n in (4, 6, 8, 9, 10, 12):
        out.append(["histogram", n])
    for k in range(16 if ck.quick else 48):
        out.append(["masked", k])
    for kind in ("bow", "vlad"):
        for s in range(81):
            if any(0 in x for x in [DIGITS(s)]) or any(2 in x for x in [DIGITS(s)]):
                out.append(["select", kind, s])
        out.append(["nofeatures", kind])
    return out


def DIGITS(s):
    return [s // 3 ** i % 3 for i in range(4)]


def check(ck, case):
    feature_loader.instance.clear_cache()
    vlad.instance.clear_cache()
    globals()["check_" + case[0]](ck, *case[1:])


def vlad_oracle(f, words):
    v = np.zeros((len(words), words.shape[1]))
    for x in np.asarray(f, float):
        d = ((words.astype(float) - x) ** 2).sum(1)
        i = int(np.argmin(d))
        v[i] += x - words[i]
    return v.ravel()


def tied(f, words):
    for x in np.asarray(f, float):
        d = np.sort(((words.astype(float) - x) ** 2).sum(1))
        if len(d) > 1 and d[1] - d[0] < 1e-6:
            return True
    return False


ALPHA = [(0.0, 0.0), (1.0, 0.25), (-2.0, 1.0), (3.5, -1.5), (0.3, 2.2), (-0.7, -0.9)]


def check_vlad(ck, m, k):
    rng = np.random.RandomState(17 * m + k)
    words = np.array([ALPHA[(k + 2 * i + i * i) % 6] for i in range(m)], np.float32) + 0.01 * rng.rand(m, 2).astype(np.float32)
    for n in range(0, 4):
        for idx in itertools.product(range(6), repeat=n):
            if n == 3 and list(idx) != sorted(idx):
                continue
            f = (np.array([ALPHA[i] for i in idx], np.float32).reshape(n, 2) * np.float32(1.1)).astype(np.float32)
            if tied(f, words):
                continue
            got = np.asarray(vlad.unnormalized_vlad(f, words))
            want = vlad_oracle(f, words)
            ck.ev()
            ck.expect(got.shape == want.shape and np.abs(got - want).max() < 1e-4, "vlad", "features %r, words %r: %r instead of %r" % (f.tolist(), words.tolist(), got.tolist(), want.tolist()))
            if np.abs(want).max() > 1e-3:
                s = vlad.signed_square_root_normalize(got.copy())
                w = np.sign(want) * np.sqrt(np.abs(want))
                w /= np.linalg.norm(w)
                ck.expect(np.abs(s - w).max() < 3e-3, "vlad-normalized", "features %r, words %r: %r instead of %r" % (f.tolist(), words.tolist(), s.tolist(), w.tolist()))
            ck.outcome((m, k, idx))


def check_vladtypes(ck):
    """Features of another kind than the words have no descriptor."""
    for wt, ft, wd, fd in itertools.product((np.float32, np.float64, np.uint8), (np.float32, np.float64, np.uint8), (2, 3), (2, 3)):
        w, f = np.eye(2, wd).astype(wt), np.full((2, fd), 3).astype(ft)
        if (wt, wd) == (ft, fd) and wt != np.float32:
            continue
        got = vlad.unnormalized_vlad(f, w)
        ck.ev()
        ck.expect((got is not None) == ((wt, wd) == (ft, fd)), "vlad-type", "words %s of %d, features %s of %d: %r" % (wt.__name__, wd, ft.__name__, fd, got))
        ck.outcome((wt.__name__, ft.__name__, wd, fd))


def check_distances(ck):
    rng = np.random.RandomState(3)
    names = ["a", "b", "c", "d", "e"]
    hist = {n: rng.rand(6).astype(np.float32) for n in names}
    hb = {n: v.astype(float) for n, v in hist.items()}
    for have in itertools.product((0, 1), repeat=5):
        h = {n: hist[n] for n, x in zip(names, have) if x}
        for others in itertools.product((0, 1), repeat=5):
            o = [n for n, x in zip(names, others) if x]
            for im in ("a", "c"):
                for kind, f in (("vlad", vlad.vlad_distances), ("bow", ps.bow_distances)):
                    got = f(im, list(o), dict(h))
                    want = {} if im not in h else {x: float(np.linalg.norm(hb[im] - hb[x]) if kind == "vlad" else np.abs(hb[im] - hb[x]).sum()) for x in o if x != im and x in h}
                    ck.ev()
                    res = dict(zip(got[2], [float(x) for x in got[1]]))
                    ok = got[0] == im and len(got[1]) == len(got[2]) == len(want) and set(res) == set(want) and all(abs(res[x] - want[x]) < 1e-5 for x in want)
                    ck.expect(ok, "distances-" + kind, "image %s among %r with descriptors of %r: %r instead of %r" % (im, o, sorted(h), got, want))
            ck.outcome((have, others))


def bag(words, freq, **k):
    return bow.BagOfWords(words.astype(np.float32), np.asarray(freq, np.float32))


def check_words(ck, m, k):
    """Nearest words of descriptors, in order, with both matchers."""
    rng = np.random.RandomState(100 * m + k)
    words = (rng.rand(m, 4) * 10).astype(np.float32)
    b = bag(words, np.arange(1, m + 1))
    f = (rng.rand(25, 4) * 10).astype(np.float32)
    d = np.sqrt(((f[:, None].astype(float) - words[None].astype(float)) ** 2).sum(2))
    for near in range(1, m + 1):
        want = np.argsort(d, 1)[:, :near]
        for matcher in ("FLANN", "BruteForce")[int(near == m):]:
            got = np.asarray(b.map_to_words(f, near, matcher))
            ck.ev()
            if matcher == "FLANN":                      # an approximate search
                order = got.shape == want.shape and (np.diff(np.take_along_axis(d, got.astype(int), 1), axis=1) > -1e-6).all()
                ck.expect(order and (got == want).all(axis=1).mean() >= 0.8, "words-flann", "layout %d %d, %d words each: %r instead of %r" % (m, k, near, got.tolist(), want.tolist()))
                continue
            ck.expect(got.shape == want.shape and (got == want).all(), "words-" + matcher.lower(), "layout %d %d, %d words each: %r instead of %r" % (m, k, near, got.tolist(), want.tolist()))
        ck.outcome((m, k, near))


def hist_oracle(w, freq):
    freq = np.asarray(freq, float)
    h = np.array([sum(1 for x in w if x == i) for i in range(len(freq))]) * np.log(freq.sum() / freq)
    return h / h.sum()


def check_histogram(ck, n):
    freq = [5, 1, 30, 8]
    rng = np.random.RandomState(n)
    words = (rng.rand(4, 4) * 10).astype(np.float32)
    b = bag(words, freq)
    seqs = list(itertools.product(range(4), repeat=n)) if n <= 4 else [tuple(rng.randint(0, 4, n)) for _ in range(80)]
    prev = None
    for s in seqs:
        w = np.array(s, np.int32)
        h = b.histogram(w)
        want = hist_oracle(s, freq)
        ck.ev()
        ck.expect(h.shape == (4,) and np.abs(h - want).max() < 1e-5, "histogram", "words %r: %r instead of %r" % (s, h.tolist(), want.tolist()))
        if prev is not None:
            pw, ph = prev
            want = float(np.abs(hist_oracle(s, freq) - hist_oracle(pw, freq)).sum())
            for a in ({}, {"h1": ph}, {"h2": h}, {"h1": ph, "h2": h}):
                got = b.bow_distance(np.array(pw, np.int32), w, **a)
                ck.expect(abs(got - want) < 1e-5, "bow-distance", "words %r and %r: %r instead of %r" % (pw, s, got, want))
        prev = (s, h)
        ck.outcome((n, tuple(int(x) for x in s)))


def files(ck):
    """Word files in the format of the program."""
    d = os.path.join(ck.scratch, "words%d" % os.getpid())
    if not os.path.exists(d):
        os.makedirs(d)
        rng = np.random.RandomState(5)
        np.savez(os.path.join(d, "bow.npz"), words=(rng.rand(5, 4) * 10).astype(np.float32), frequencies=np.array([4, 9, 1, 30, 12], np.float32))
        np.savez(os.path.join(d, "vlad.npz"), words=(rng.rand(3, 4) * 10).astype(np.float32), frequencies=np.array([3, 5, 8], np.float32))
    return os.path.join(d, "bow.npz"), os.path.join(d, "vlad.npz")


def half_mask(keep_left):
    m = np.zeros((48, 64), np.uint8)
    if keep_left:
        m[:, :32] = 255
    else:
        m[:, 32:] = 255
    return m


def world(ck, names, seed, few=(), none=(), masks=True, **cfg):
    """(dataset, descriptors that count, words that count)"""
    fb, fv = files(ck)
    bw, vw = np.load(fb)["words"], np.load(fv)["words"]
    data = MemData(bow_file=fb, vlad_file=fv, **cfg)
    desc, words = {}, {}
    rng = np.random.RandomState(seed)
    for i, nm in enumerate(names):
        n = 24 + i
        f = (rng.rand(n, 4) * 10).astype(np.float32)
        if nm in few:
            f = f[:8]
        n = len(f)
        pts = np.stack([np.where(rng.rand(n) < 0.5, -0.25, 0.25), rng.rand(n) * 0.4 - 0.2, np.full(n, 0.01)], 1)
        if nm in few:
            pts[:, 0] = -0.25
        if nm in none:
            data.exifs[nm] = {"camera": "c", "width": 640, "height": 480, "orientation": 1, "make": "m", "model": "x", "capture_time": 0.0}
            data.words[nm] = np.zeros((0, 2), np.int32)
            continue
        data.add(nm, pts, f)
        d = ((f[:, None] - bw[None]) ** 2).sum(2)
        data.words[nm] = np.argsort(d, 1)[:, :2].astype(np.int32)
        keep = np.ones(n, bool)
        if masks and i % 2 and nm not in few:
            left = bool((i // 2 + seed) % 2)
            data.masks[nm] = half_mask(left)
            keep = pts[:, 0] < 0 if left else pts[:, 0] > 0
        elif masks and nm in few:
            data.masks[nm] = half_mask(True)
        desc[nm], words[nm] = f[keep], data.words[nm][keep, 0]
    return data, desc, words


def descriptors(ck, kind, desc, words):
    fb, fv = files(ck)
    out = {}
    for nm in desc:
        if kind == "bow":
            if len(words[nm]) > 8:
                out[nm] = hist_oracle(words[nm], np.load(fb)["frequencies"])
        else:
            v = vlad_oracle(desc[nm], np.load(fv)["words"])
            v = np.sign(v) * np.sqrt(np.abs(v))
            out[nm] = v / np.linalg.norm(v)
    return out


def check_masked(ck, k):
    names = ["i%d" % i for i in range(4)]
    for few in ((), ("i1",)):
        for none in ((), ("i2",)):
            data, desc, words = world(ck, names, k, few, none)
            feature_loader.instance.clear_cache()
            vlad.instance.clear_cache()
            got = ps.load_histograms(data, [n for n in names if n not in none])
            want = descriptors(ck, "bow", desc, words)
            ck.ev(2)
            ck.expect(set(got) == set(want) and all(np.abs(got[n] - want[n]).max() < 1e-5 for n in want), "histograms", "layout %d few %r none %r: %r instead of %r" % (k, few, none, got, want))
            got = ps.vlad_histograms(names, data)
            want = descriptors(ck, "vlad", desc, words)
            ck.expect(set(got) == set(want) and all(np.abs(got[n] - want[n]).max() < 1e-3 for n in want), "vlads", "layout %d few %r none %r: %r instead of %r" % (k, few, none, got, want))
            for n in names:
                v = vlad.instance.vlad_histogram(data, n)
                ck.expect((v is None) == (n not in want) and (v is None or np.abs(v - want[n]).max() < 1e-3), "vlad-cache", "layout %d %s: %r" % (k, n, v))
            ck.outcome((k, few, none))


XY = [(0.0, 0.0), (13.0, 4.0), (-31.0, 17.0), (90.0, -52.0), (101.0, 77.0)]


def exif_gps(data, names, lack=()):
    for i, n in enumerate(names):
        if n not in lack:
            lat, lon, _ = REF.to_lla(XY[i][0], XY[i][1], 0)
            data.exifs[n]["gps"] = {"latitude": lat, "longitude": lon, "altitude": 10.0 * i}


def sp(a, b):
    return (a, b) if a < b else (b, a)


def preselect(ref, cand, k, maxd, xy):
    """Candidates of each reference image by position."""
    if k == 0 and maxd == 0:
        return {r: list(cand) for r in ref}
    pairs = set()
    for r in ref:
        near = sorted((math.dist(xy[r], xy[c]), c) for c in cand if c != r and (maxd == 0 or math.dist(xy[r], xy[c]) < maxd))
        pairs |= {sp(r, c) for _, c in near[:k or None]}
    out = {}
    for a, b in pairs:
        if a in ref:
            out.setdefault(a, []).append(b)
        if b in ref:
            out.setdefault(b, []).append(a)
    return out


def selection(ref, pre, h, kind, k, cams, other):
    want = {}
    for r in ref:
        if r not in h or r not in pre:
            continue
        d = sorted((float(np.linalg.norm(h[r] - h[c]) if kind == "vlad" else np.abs(h[r] - h[c]).sum()), c) for c in pre[r] if c != r and c in h)
        if any(b[0] - a[0] < 2e-5 for a, b in zip(d, d[1:])):
            return None
        if other:
            d = [x for x in d if cams[x[1]] == cams[r]][:k] + [x for x in d if cams[x[1]] != cams[r]][:k]
        else:
            d = d[:k]
        for x, c in d:
            want[sp(r, c)] = x
    return want


def check_select(ck, kind, s, seeds=(0,)):
    names = ["i%d" % i for i in range(4)]
    dig = DIGITS(s)
    ref, cand = [n for n, x in zip(names, dig) if x != 1], [n for n, x in zip(names, dig) if x != 0]
    if not ref or not cand:
        return
    for seed in seeds:
        for few in ((), ("i1",), ("i0", "i3")):
            for lack in ((), ("i2",)):
                data, desc, words = world(ck, names, seed + s % 3, few, processes=1 + (s % 4 == 3))
                exif_gps(data, names, lack)
                data.load_reference = lambda: REF
                cams = {n: "xxyx"[i] for i, n in enumerate(names)}
                for n in names:
                    data.exifs[n]["camera"] = cams[n]
                h = descriptors(ck, kind, desc, words)
                xy = dict(zip(names, XY))
                for k in (1, 2, 3):
                    for other in (False, True):
                        for gk, gd in ((0, 0.0), (1, 0.0), (2, 0.0), (0, 60.0), (1, 60.0), (0, 5.0)):
                            if lack and not (gk or gd):
                                continue
                            vlad.instance.clear_cache()
                            feature_loader.instance.clear_cache()
                            conf = {"matching_%s_neighbors" % kind: k, "matching_%s_other_cameras" % kind: other, "matching_%s_gps_neighbors" % kind: gk,
                                    "matching_%s_gps_distance" % kind: gd, "matching_gps_distance": 0}
                            what = "%s of ref %r, candidates %r, few features %r, no GPS %r, %r" % (kind, ref, cand, few, lack, conf)
                            try:
                                got, rep = ps.match_candidates_from_metadata(list(ref), list(cand), data.exifs, data, conf)
                            except Exception as e:
                                ck.fail("select-" + kind, what + ": raised %r" % e)
                                continue
                            ck.ev()
                            pre = {} if lack and set(lack) & set(ref + cand) else preselect(ref, cand, gk, gd, xy)
                            wants = [selection(ref, pre, h, kind, k, cams, other)]
                            if not pre and kind == "vlad":
                                wants = [selection(ref, {r: cand for r in ref}, h, kind, k, cams, other)]
                            elif not pre:
                                wants.append(selection(ref, {r: cand for r in ref}, h, kind, k, cams, other))
                            if None in wants:
                                continue
                            res = {sp(*p) for p in got}
                            ck.expect(res in [set(w) for w in wants] and len(got) == len(res), "select-" + kind, "%s: %r instead of %r" % (what, sorted(got), wants))
                            ck.expect(all(a in ref for a, _ in got), "select-order", "%s: %r" % (what, got))
                            ck.expect(rep["num_pairs_" + kind] == len(res) and sum(rep.values()) == len(res), "select-report", "%s: %r for %r" % (what, rep, got))
                            ck.outcome((kind, s, few, lack, k, other, gk, gd, frozenset(res)))
    ck.sample({"kind": kind, "ref": ref, "cand": cand})


def check_nofeatures(ck, kind):
    """Distances come with the pairs; known VLAD descriptors are used and completed."""
    names = ["i%d" % i for i in range(5)]
    for seed in range(6):
        for known in itertools.product((0, 1), repeat=3):
            data, desc, words = world(ck, names, seed)
            exif_gps(data, names)
            h = descriptors(ck, kind, desc, words)
            cams = {n: "c" for n in names}
            vlad.instance.clear_cache()
            feature_loader.instance.clear_cache()
            for k in (0, 1, 2, 9):
                want = selection(names, {n: names for n in names}, h, kind, k, cams, False) if k else {}
                if kind == "vlad":
                    given = {n: vlad.instance.vlad_histogram(data, n) for n, x in zip(names, known) if x}
                    hist = dict(given)
                    got = ps.match_candidates_with_vlad(data, names, names, data.exifs, REF, k, 0, 0, False, hist)
                    if k:
                        ck.expect(set(hist) == set(names) and all(hist[n] is given[n] for n in given), "vlad-given", "descriptors of %r after those of %r" % (sorted(hist), sorted(given)))
                else:
                    got = ps.match_candidates_with_bow(data, names, names, data.exifs, REF, k, 0, 0, False)
                ck.ev()
                if want is None:
                    continue
                ck.expect(set(got) == set(want) and all(abs(got[p] - want[p]) < 2e-3 for p in want), "affinity-" + kind, "seed %d, %d neighbours: %r instead of %r" % (seed, k, got, want))
                ck.outcome((kind, seed, k))
