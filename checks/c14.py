"""C14: pixels, normalized coordinates, upright coordinates and masks agree for every pixel of every small image."""
import itertools
from fractions import Fraction as F

import numpy as np
from opensfm import features, features_processing, masking, pygeometry, upright
from memdata import MemData

C = pygeometry.Camera
LEVEL = "exploration"
RULE = ("all pixels (and fractions of pixels) of all image sizes up to the bound x the four orientations x mask sizes x all masks "
        "that tell mask pixels apart; non-trivial: distinct (size, orientation, mask size, pixel) lookups")
ASSUMPTIONS = ["positions exactly on the border of two mask pixels may fall on either side"]
OFFS = [F(0), F(-2, 5), F(3, 10)]


def norm(x, y, w, h):
    s = max(w, h)
    return (F(x) + F(1, 2) - F(w, 2)) / s, (F(y) + F(1, 2) - F(h, 2)) / s


def up(x, y, w, h, orientation):
    """position of pixel (x, y), in [0, 1] of the upright image"""
    a, b = (F(x) + F(1, 2)) / w, (F(y) + F(1, 2)) / h
    return {1: (a, b), 3: (1 - a, 1 - b), 6: (1 - b, a), 8: (b, 1 - a)}[orientation]


def sizes(n):
    return [(w, h) for w in range(1, n + 1) for h in range(1, n + 1)]


def cases(ck):
    n = 5 if ck.quick else 9
    out = [["pix", w, h] for w, h in sizes(n) + [(640, 480), (3, 4000)]]
    out += [["mask", w, h, o] for w, h in sizes(4 if ck.quick else 6) for o in (1, 3, 6, 8)]
    out += [["combine", w, h] for w, h in sizes(3)]
    out += [["semantic", w, h, o] for w, h in [(2, 3), (3, 2), (4, 4)] for o in (1, 3, 6, 8)]
    out += [["detect", w, h, o] for w, h in [(2, 3), (4, 3), (4, 4), (1, 5)] for o in (1, 3, 6, 8)]
    return out


def grid(w, h, offs=OFFS):
    xs = range(w) if w < 50 else [0, 1, w // 2, w - 1]
    ys = range(h) if h < 50 else [0, 1, h // 2, h - 1]
    return [(x + dx, y + dy) for x in xs for y in ys for dx in offs for dy in offs]


def check(ck, case):
    globals()[case[0]](ck, *case[1:])


def pix(ck, w, h):
    pts = grid(w, h)
    fl = np.array([[float(x), float(y)] for x, y in pts])
    want = np.array([[float(v) for v in norm(x, y, w, h)] for x, y in pts])
    cam = C.create_perspective(0.8, 0.0, 0.0)
    cam.width, cam.height = w, h

    def same(got, ref, key, what):
        ck.ev(len(ref))
        got = np.asarray(got)
        ok = got.shape == ref.shape and np.allclose(got, ref, atol=1e-9 * max(w, h, 1))
        if not ok:
            i = 0 if got.shape != ref.shape else int(np.argmax(np.abs(got - ref).max(axis=1)))
            ck.fail(key, "%s in a %dx%d image: %r instead of %r at pixel %r" % (what, w, h, got[i].tolist() if got.shape == ref.shape else got.shape, ref[i].tolist(), fl[i].tolist()))
    before = fl.copy()
    same(features.normalized_image_coordinates(fl, w, h), want, "features-norm", "normalized_image_coordinates")
    same(features.denormalized_image_coordinates(want, w, h), fl, "features-denorm", "denormalized_image_coordinates")
    same(cam.pixel_to_normalized_coordinates_many(fl), want, "camera-norm", "pixel_to_normalized_coordinates_many")
    same(cam.normalized_to_pixel_coordinates_many(want), fl, "camera-denorm", "normalized_to_pixel_coordinates_many")
    same(C.pixel_to_normalized_coordinates_many_common(fl, w, h), want, "common-norm", "pixel_to_normalized_coordinates_many_common")
    same(C.normalized_to_pixel_coordinates_many_common(want, w, h), fl, "common-denorm", "normalized_to_pixel_coordinates_many_common")
    step = max(1, len(fl) // 60)
    one = [cam.pixel_to_normalized_coordinates(p) for p in fl[::step]]
    same(one, want[::step], "camera-norm-one", "pixel_to_normalized_coordinates")
    same([cam.normalized_to_pixel_coordinates(p) for p in want[::step]], fl[::step], "camera-denorm-one", "normalized_to_pixel_coordinates")
    same([C.pixel_to_normalized_coordinates_common(p, w, h) for p in fl[::step]], want[::step], "common-norm-one", "..._common")
    same([C.normalized_to_pixel_coordinates_common(p, w, h) for p in want[::step]], fl[::step], "common-denorm-one", "..._common")
    full = np.hstack([fl, np.full((len(fl), 1), 3.0), np.full((len(fl), 1), 0.5)])
    p, d, c = features.normalize_features(full.copy(), "d", "c", w, h)
    same(p[:, :2], want, "normalize", "normalize_features")
    ck.expect(np.allclose(p[:, 2], 3.0 / max(w, h)) and np.allclose(p[:, 3], 0.5) and (d, c) == ("d", "c"), "normalize-size", "%dx%d: sizes %r" % (w, h, p[:2]))
    ck.expect(np.array_equal(fl, before), "modified", "the caller's pixels were modified")
    for o in (1, 3, 6, 8):
        uw, uh = (w, h) if o in (1, 3) else (h, w)
        for kw, nw, nh in (({}, uw, uh), ({"new_width": 7, "new_height": 3}, 7, 3), ({"new_width": 5}, 5, uh)):
            ref = np.array([[float(a * nw), float(b * nh)] for a, b in (up(x, y, w, h, o) for x, y in pts)])
            same(upright.opensfm_to_upright(want, w, h, o, **kw), ref, "upright:%d" % o, "opensfm_to_upright with orientation %d to %dx%d" % (o, nw, nh))
        # the upright pixels of an image are those of the stored array, rotated
        a = np.arange(w * h).reshape(h, w) if w * h < 1000 else None
        if a is not None:
            r = {1: a, 3: np.rot90(a, 2), 6: np.rot90(a, -1), 8: np.rot90(a, 1)}[o]
            cs = [(x, y) for x in range(w) for y in range(h)]
            q = upright.opensfm_to_upright(np.array([[float(v) for v in norm(x, y, w, h)] for x, y in cs]), w, h, o).astype(int)
            got = [int(r[v, u]) if 0 <= v < r.shape[0] and 0 <= u < r.shape[1] else None for u, v in q]
            ck.expect(got == [int(a[y, x]) for x, y in cs], "upright-pixels:%d" % o, "%dx%d: pixels %r" % (w, h, got))
        ck.outcome((w, h, o))
    if w * h == 12:
        ck.sample({"size": [w, h], "pixel": fl[1].tolist(), "normalized": want[1].tolist()})


def cells(t, n):
    """indices the position t in [0, 1] of n cells may fall into"""
    v = t * n
    i = v.numerator // v.denominator
    return {min(max(i, 0), n - 1)} | ({min(max(i - 1, 0), n - 1)} if v == i else set())


def lookup(got, pts, w, h, o, mw, mh, value, ck, key, what):
    for (x, y), g in zip(pts, got):
        a, b = up(x, y, w, h, o)
        allowed = {bool(value[v, u]) for u in cells(a, mw) for v in cells(b, mh)}
        ck.ev()
        ck.outcome((w, h, o, mw, mh, x, y))
        if bool(g) not in allowed:
            ck.fail(key, "%s: feature at pixel (%s, %s) of a %dx%d image with orientation %d is %s" % (what, float(x), float(y), w, h, o, "kept" if g else "masked"))
            return


def dataset(w, h, o, pts):
    d = MemData()
    P = np.array([[float(v) for v in norm(x, y, w, h)] + [0.01] for x, y in pts])
    d.add("im", P, np.zeros((len(pts), 4), np.float32), orientation=o, width=w, height=h)
    return d, P


def mask(ck, w, h, o):
    pts = grid(w, h)
    d, P = dataset(w, h, o, pts)
    uw, uh = (w, h) if o in (1, 3) else (h, w)
    for mw, mh in {(uw, uh), (2 * uw, 2 * uh), (1, 1), (3, 2), (uw + 1, uh)}:
        idx = np.arange(mw * mh).reshape(mh, mw)
        for bit in range(max(1, (mw * mh - 1).bit_length())):
            for inv in (0, 1):
                m = ((((idx >> bit) & 1) ^ inv) * 255).astype(np.uint8)
                d.masks["im"] = m
                got = masking.load_features_mask(d, "im", P)
                ck.expect(got.dtype == bool and got.shape == (len(pts),), "mask-type", "%r %r" % (got.dtype, got.shape))
                lookup(got, pts, w, h, o, mw, mh, m, ck, "mask:%d" % o, "mask of %dx%d" % (mw, mh))
                got = masking.load_features_mask(d, "im", P, m)
                lookup(got, pts, w, h, o, mw, mh, m, ck, "mask-given:%d" % o, "given mask of %dx%d" % (mw, mh))
                # the same lookup is used to give features their labels
                s, i = features_processing.bake_segmentation(np.zeros((h, w, 3), np.uint8), P, m, None, d.load_exif("im"))
                lookup(s, pts, w, h, o, mw, mh, m, ck, "bake:%d" % o, "segmentation of %dx%d" % (mw, mh))
                ck.expect(i is None, "bake-none", "instances from nowhere")
                s, i = features_processing.bake_segmentation(np.zeros((h, w, 3), np.uint8), P, None, m, d.load_exif("im"))
                lookup(i, pts, w, h, o, mw, mh, m, ck, "bake:%d" % o, "instances of %dx%d" % (mw, mh))
                ck.expect(s is None, "bake-none", "segmentation from nowhere")
    del d.masks["im"]
    ck.expect(masking.load_features_mask(d, "im", P).all(), "no-mask", "features are masked without a mask")
    ck.expect(len(masking.load_features_mask(d, "im", P[:0])) == 0, "no-points", "a mask for no points")


def combine(ck, w, h):
    """combination of two masks, whatever the non-zero values, at the same or a multiple of the size"""
    for k1, k2 in ((1, 1), (1, 2), (3, 1)):
        n = w * h
        for a in range(min(2 ** n, 64)):
            for b in {0, 1, 2 ** n - 1, (a * 5 + 3) % 2 ** n, a}:
                A = np.array([(a >> i) & 1 for i in range(n)], np.uint8).reshape(h, w)
                B = np.array([(b >> i) & 1 for i in range(n)], np.uint8).reshape(h, w)
                want = np.kron(A & B, np.ones((max(k1, k2),) * 2, np.uint8))
                for va, vb in ((255, 1), (255, 255), (254, 1), (2, 1), (1, 128)):
                    mA, mB = np.kron(A, np.ones((k1, k1), np.uint8)) * np.uint8(va), np.kron(B, np.ones((k2, k2), np.uint8)) * np.uint8(vb)
                    got = masking.combine_masks(mA, mB)
                    ck.ev()
                    ck.outcome((w, h, k1, k2, a, b, va))
                    ck.expect(got.shape == want.shape and np.array_equal(got != 0, want != 0), "combine",
                              "masks\n%r and\n%r combine to\n%r" % (mA, mB, got))
    m = np.ones((h, w), np.uint8)
    ck.expect(masking.combine_masks(None, None) is None and masking.combine_masks(m, None) is m and masking.combine_masks(None, m) is m,
              "combine-none", "combination with a missing mask")


def detect(ck, w, h, o):
    """the features saved for an image have the labels, or are those left by the mask, of the pixels they lie in"""
    pts = grid(w, h, [F(0)])
    n = len(pts)
    uw, uh = (w, h) if o in (1, 3) else (h, w)
    order = [(5 * i + 2) % n if n % 5 else (3 * i + 1) % n for i in range(n)]
    old = features.extract_features
    for flip in (0, 1):
        sizes = np.array([order.index(i) if not flip else n - order.index(i) for i in range(n)], float) + 1
        for mw, mh in ((uw, uh), (2 * uw, 2 * uh)):
            idx = np.arange(mw * mh).reshape(mh, mw)
            seg, inst = (idx % 7).astype(np.uint8), ((idx * 3 + 1) % 11).astype(np.uint8)
            for bake in (True, False):
                for kind in ("seg", "both", "mask", "none"):
                    d, P = dataset(w, h, o, pts)
                    P = np.column_stack([P[:, :2], sizes, np.zeros(n)])
                    d.config["features_bake_segmentation"] = bake
                    saved = []
                    cam = C.create_perspective(0.9, 0, 0)
                    cam.id, cam.width, cam.height = "cam", w, h
                    d.cams["cam"] = cam
                    d.features_exist = d.words_exist = lambda im: False
                    d.feature_type = lambda: "hahog"
                    d.save_features = lambda im, fd: saved.append(fd)
                    d.save_report = lambda *a: None
                    d.segmentation_labels = lambda: []
                    d.ignore = [1, 4]
                    s, i = (seg if kind in ("seg", "both") else None), (inst if kind == "both" else None)
                    if s is not None:
                        d.segs["im"] = s
                    if i is not None:
                        d.insts["im"] = i
                    if kind == "mask":
                        d.masks["im"] = ((idx % 3 != 0) * 255).astype(np.uint8)
                    try:
                        features.extract_features = lambda image, cfg, pano: (
                            P.copy(), np.arange(n, dtype=np.float32)[:, None] + np.zeros((n, 4), np.float32), np.zeros((n, 3), np.uint8))
                        features_processing.detect("im", np.zeros((h, w, 3), np.uint8), s, i, d, True)
                    finally:
                        features.extract_features = old
                    ck.ev()
                    what = "%dx%d orientation %d, %s %s segmentation baked" % (w, h, o, kind, "with" if bake else "without")
                    if len(saved) != 1:
                        ck.fail("detect-saved", "%s: saved %d times" % (what, len(saved)))
                        continue
                    fd = saved[0]
                    who = [int(x) for x in fd.descriptors[:, 0]]
                    ck.expect(np.array_equal(fd.points[:, :3], P[who, :3]), "detect-step", "%s: points and descriptors" % what)
                    ck.expect(list(fd.points[:, 2]) == sorted(fd.points[:, 2]), "detect-order", "%s: sizes %r" % (what, list(fd.points[:, 2])))
                    cell = {}
                    for k, (x, y) in enumerate(pts):
                        a, b = up(x, y, w, h, o)
                        cell[k] = [(v, u) for v in cells(b, mh) for u in cells(a, mw)]
                    if bake:
                        ck.expect(sorted(who) == list(range(n)), "detect-all", "%s: features %r of %d" % (what, who, n))
                        sem = fd.semantic
                        for name, src, got in (("segmentation", s, sem.segmentation if sem else None), ("instances", i, sem.instances if sem else None)):
                            if src is None:
                                ck.expect(got is None, "detect-none", "%s: %s from nowhere" % (what, name))
                                continue
                            ok = got is not None and len(got) == n and all(int(g) in {int(src[c]) for c in cell[k]} for k, g in zip(who, got))
                            ck.expect(ok, "detect-label", "%s: %s %r of features %r" % (what, name, got, who))
                    else:
                        keep = np.ones((mh, mw), bool)
                        if kind in ("seg", "both"):
                            keep &= ~np.isin(seg, [1, 4])
                        if kind == "mask":
                            keep &= idx % 3 != 0
                        must = [k for k in range(n) if all(keep[c] for c in cell[k])]
                        may = [k for k in range(n) if any(keep[c] for c in cell[k])]
                        ck.expect(set(must) <= set(who) <= set(may) and len(set(who)) == len(who), "detect-mask",
                                  "%s: features %r are left, not %r" % (what, who, must))
                    ck.outcome((w, h, o, flip, mw, bake, kind))


def semantic(ck, w, h, o):
    """mask image and ignored segmentation labels together"""
    pts = grid(w, h, [F(0)])
    d, P = dataset(w, h, o, pts)
    uw, uh = (w, h) if o in (1, 3) else (h, w)
    seg = (np.arange(uw * uh).reshape(uh, uw) % 5).astype(np.uint8)
    for ignore in itertools.chain.from_iterable(itertools.combinations(range(5), r) for r in range(4)):
        for step in range(4):
            d.ignore = list(ignore)
            d.segs["im"] = seg
            if step == 3:
                del d.segs["im"]
            d.masks.pop("im", None)
            M = np.ones((uh, uw), bool)
            if step:
                M = (np.arange(uw * uh).reshape(uh, uw) % (step + 1)) != 0
                d.masks["im"] = M.astype(np.uint8) * (255 if step == 1 else 254)
            keep = M & ~np.isin(seg, ignore) if step != 3 else M
            got = masking.load_features_mask(d, "im", P)
            lookup(got, pts, w, h, o, uw, uh, keep, ck, "semantic", "labels %r ignored, %s mask" % (ignore, "a" if step else "no"))
            ck.expect(np.array_equal(masking.mask_from_segmentation(seg, list(ignore)) != 0, ~np.isin(seg, ignore)), "from-segmentation", repr(ignore))
