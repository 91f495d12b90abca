"""C36: the feature loader hands out the saved features, masked as asked, whatever was loaded before."""
import itertools
import json
import os
import shutil

import numpy as np
from opensfm import dataset, feature_loading, features, pygeometry
from PIL import Image

LEVEL = "exploration"
RULE = ("all histories of up to the bound calls of the loader (masks, features, points, bearings, words, search index; masked or not, "
        "with or without segmentation, two images of two datasets, cleared caches) in all configurations of masks, segmentations and "
        "ignored labels, every answer against a direct computation; non-trivial: distinct answers")
ASSUMPTIONS = ["features lie at pixel centres (which pixel a feature lies in is C14)", "fewer images than the caches hold"]
W, H = 8, 6
CAMS = None
PIX = {"a.jpg": [(0, 0), (7, 0), (3, 2), (0, 5), (7, 5), (4, 3)], "b.jpg": [(1, 1), (6, 4), (2, 5)], "c.jpg": []}
ORI = {"a.jpg": 1, "b.jpg": 6, "c.jpg": 1}


def setup(ck):
    global CAMS
    p = pygeometry.Camera.create_perspective(0.9, 0.1, 0.01)
    p.width, p.height, p.id = W, H, "p"
    f = pygeometry.Camera.create_fisheye(0.6, -0.1, 0.02)
    f.width, f.height, f.id = W, H, "f"
    CAMS = [p, f]


LABELS = [0, 9, 60, 255]


def label(im, x, y):
    return LABELS[(x + 2 * y + (im == "b.jpg")) % 4]


def mask_pixel(im, x, y):
    return (x * 3 + y * 5 + (im == "b.jpg")) % 3 != 0


def upright(im, get):
    """image seen upright: EXIF orientation 6 has the camera turned, its rows are columns"""
    if ORI[im] == 6:
        out = np.zeros((W, H), np.uint8)
        for y in range(H):
            for x in range(W):
                out[x, H - 1 - y] = get(im, x, y)
        return out
    return np.array([[get(im, x, y) for x in range(W)] for y in range(H)], np.uint8)


def raw(im, variant=0):
    """what was saved for an image"""
    n = len(PIX[im])
    rng = np.arange(n)
    pts = np.zeros((n, 4))
    for i, (x, y) in enumerate(PIX[im]):
        pts[i, :2] = features.normalized_image_coordinates(np.array([[x, y]], float), W, H)[0]
        pts[i, 2:] = (0.01 * (i + 1 + variant), 30 * i)
    desc = ((np.outer(rng + 1 + variant, np.arange(1, 9)) * 7) % 256).astype(np.float32).reshape(n, 8)
    col = np.stack([rng * 10, rng * 20 + variant, rng + 5], axis=1).astype(float).reshape(n, 3)
    seg = np.array([label(im, x, y) for x, y in PIX[im]], np.uint8)
    inst = np.zeros(n, np.int16) if im == "b.jpg" else (np.arange(n)[::-1] * 97 + 3 * variant).astype(np.int16)
    return pts, desc, col, seg, inst


CONFIGS = [dict(mask=m, seg=s, sem=se, bake=b, ignore=ig)
           for m in (False, True) for s in (False, True) for se in (False, True, "inst") for b in (False, True) for ig in ((), (9,), (0, 60))
           if not (b and not se) or ig == (9,)]


def dump(path, cfg, variant=0):
    shutil.rmtree(path, ignore_errors=True)
    for d in ("images", "masks", "segmentations"):
        os.makedirs(os.path.join(path, d))
    for im in PIX:
        Image.fromarray(np.zeros((H, W, 3), np.uint8)).save(path + "/images/" + im)
        if cfg["mask"] and im != "c.jpg":
            Image.fromarray(upright(im, lambda *a: 255 * mask_pixel(*a))).save(path + "/masks/" + im + ".png")
        if cfg["seg"] and im != "c.jpg":
            Image.fromarray(upright(im, label)).save(path + "/segmentations/" + im + ".png")
    json.dump({"feature_type": "HAHOG", "hahog_normalize_to_uchar": True, "features_bake_segmentation": cfg["bake"],
               "segmentation_ignore_values": list(cfg["ignore"])}, open(path + "/config.yaml", "w"))
    data = dataset.DataSet(path)
    for im in PIX:
        data.save_exif(im, {"width": W, "height": H, "orientation": ORI[im], "camera": "p"})
        write(data, im, cfg, variant)
    return data


def write(data, im, cfg, variant):
    pts, desc, col, seg, inst = raw(im, variant)
    sem = features.SemanticData(seg, inst if cfg["sem"] == "inst" else None, [{"id": 0}]) if cfg["sem"] and len(pts) else None
    data.save_features(im, features.FeaturesData(pts, desc, col, sem))
    os.makedirs(data._words_path() if hasattr(data, "_words_path") else os.path.join(data.data_path, "words"), exist_ok=True)
    data.save_words(im, np.arange(len(pts) * 2).reshape(-1, 2) + variant)


def keep(cfg, im):
    out = []
    for i, (x, y) in enumerate(PIX[im]):
        ok = not cfg["mask"] or mask_pixel(im, x, y)
        if cfg["bake"] and cfg["sem"]:
            ok = ok and label(im, x, y) not in cfg["ignore"]
        if not (cfg["bake"] and cfg["sem"]) and cfg["seg"]:
            ok = ok and label(im, x, y) not in cfg["ignore"]
        out.append(ok)
    return np.array(out, bool)


def calls(full):
    out = []
    for im in ("a.jpg", "b.jpg"):
        out += [("mask", im), ("points", im)]
        out += [("all", im, m, s) for m in (True, False) for s in (True, False)]
        out += [("bearings", im, m, c) for m in (True, False) for c in (0, 1)]
        out += [("words", im, m) for m in (True, False)]
        out += [("index", im, True, s) for s in (True, False)]
    if full:
        out += [("mask", "c.jpg"), ("all", "c.jpg", True, False), ("all", "c.jpg", False, False), ("points", "c.jpg"), ("bearings", "c.jpg", True, 0), ("words", "c.jpg", True)]
    return out


def near(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-6, atol=1e-6)


def feats(ck, f, im, variant, sel, cfg, seg, desc, what):
    pts, d, col, lab, inst = raw(im, variant)
    ok = near(f.points, pts[sel, :3]) and near(f.colors, col[sel])
    ck.expect(ok, "features", "%s gives points %r and colors %r instead of %r, %r" % (what, f.points, f.colors, pts[sel, :3], col[sel]))
    if not desc:
        ck.expect(f.descriptors is None, "features", "%s has descriptors" % what)
    else:
        w = d[sel]
        if seg and cfg["sem"] and len(pts):
            w = np.concatenate([w, lab[sel, None] * 35.0], axis=1)
        ck.expect(f.descriptors is not None and near(np.asarray(f.descriptors, float), w), "descriptors", "%s has descriptors\n%r\ninstead of\n%r" % (what, f.descriptors, w))
    s = f.get_segmentation()
    if cfg["sem"] and len(pts):
        ck.expect(s is not None and list(s) == list(lab[sel]) and (f.semantic.instances is None) == (cfg["sem"] != "inst")
                  and (f.semantic.instances is None or list(f.semantic.instances) == list(inst[sel])), "labels", "%s has labels %r instead of %r" % (what, s, lab[sel]))
    else:
        ck.expect(s is None, "labels", "%s has labels %r" % (what, s))
    ck.outcome((im, variant, f.points.tolist(), None if f.descriptors is None else np.asarray(f.descriptors).tolist()))


def call(ck, loader, data, op, cfg, variant, what):
    im = op[1]
    k = keep(cfg, im)
    n = len(PIX[im])
    every = np.ones(n, bool)
    if op[0] == "mask":
        m = loader.load_mask(data, im)
        ck.expect(m is not None and len(m) == n and [bool(x) for x in m] == list(k), "mask", "%s gives %r instead of %r" % (what, m, k))
    elif op[0] == "points":
        feats(ck, loader.load_points_colors_segmentations_instances(data, im), im, variant, every, cfg, False, False, what)
    elif op[0] == "all":
        feats(ck, loader.load_all_data(data, im, op[2], op[3]), im, variant, k if op[2] else every, cfg, op[3], True, what)
    elif op[0] == "bearings":
        b = loader.load_bearings(data, im, op[2], CAMS[op[3]])
        pts = raw(im, variant)[0][k if op[2] else every][:, :2].astype(np.float32).astype(float)
        w = np.array([CAMS[op[3]].pixel_bearing(p) for p in pts]).reshape(-1, 3)
        ck.expect(b is not None and np.asarray(b).shape == w.shape and np.allclose(b, w, atol=1e-9), "bearings", "%s gives %r instead of %r" % (what, b, w))
    elif op[0] == "words":
        w = loader.load_words(data, im, op[2])
        want = (np.arange(n * 2).reshape(-1, 2) + variant)[k if op[2] else every]
        ck.expect(w.tolist() == want.tolist(), "words", "%s gives %r instead of %r" % (what, w, want))
    elif op[0] == "index":
        r = loader.load_features_index(data, im, op[2], op[3])
        f, index = r
        feats(ck, f, im, variant, k, cfg, op[3], True, what)
        if len(f.descriptors):
            q = np.ascontiguousarray(np.asarray(f.descriptors, np.float32))
            idx, dist = index.knnSearch(q, 1, params={"checks": 200})
            ck.expect(float(np.max(dist)) == 0.0, "index", "%s: the index does not find its own descriptors: %r" % (what, dist))


def cases(ck):
    out = [["old", i] for i in range(4)]
    out += [["two", i] for i in range(0, len(CONFIGS), 2 if ck.quick else 1)]
    out += [["again", i] for i in range(0, len(CONFIGS), 1 if not ck.quick else 5)]
    if not ck.quick:
        out += [["three", i, k] for i in range(len(CONFIGS)) for k in range(len(calls(True)))]
    else:
        out += [["three", i, k] for i in (len(CONFIGS) - 1,) for k in range(len(calls(True)))]
    return out


def two(ck, i, depth=2, first=None):
    cfg = CONFIGS[i]
    d1 = dump(os.path.join(ck.scratch, "d1"), cfg)
    d2 = dump(os.path.join(ck.scratch, "d2"), cfg, 1)
    al = [(0, c) for c in calls(True)] + ([(1, c) for c in calls(False)[:7]] if first is None else [])
    firsts = al if first is None else [al[first]]
    for h in itertools.product(firsts, *[al] * (depth - 1)):
        loader = feature_loading.FeatureLoader()
        for j, (dn, op) in enumerate(h):
            ck.ev()
            what = "configuration %r, calls %r" % (cfg, h[:j + 1])
            try:
                call(ck, loader, (d1, d2)[dn], op, cfg, dn, what)
            except Exception as e:
                ck.fail("raised", "%s raises %s: %s" % (what, type(e).__name__, e))
        # a loader is never freed from the caches of its class, but this keeps the memory small
        loader.clear_cache()


def again(ck, i):
    """Features extracted again are seen after the caches were cleared."""
    cfg = CONFIGS[i]
    d = dump(os.path.join(ck.scratch, "d1"), cfg)
    loader = feature_loading.FeatureLoader()
    for op in calls(True):
        for im in PIX:
            write(d, im, cfg, 0)
        loader.clear_cache()
        call(ck, loader, d, op, cfg, 0, "configuration %r, %r" % (cfg, op))
        for im in PIX:
            write(d, im, cfg, 2)
        loader.clear_cache()
        for op2 in calls(True):
            ck.ev()
            what = "configuration %r, %r, features saved again, clear_cache, %r" % (cfg, op, op2)
            try:
                call(ck, loader, d, op2, cfg, 2, what)
            except Exception as e:
                ck.fail("raised", "%s raises %s: %s" % (what, type(e).__name__, e))
    loader.clear_cache()


def old(ck, version):
    """Features written by older versions of the program are handed out too; masks keep everything in step."""
    for sd in (0.004, 0.5):
        for variant in (0, 1):
            d = dump(os.path.join(ck.scratch, "d1"), CONFIGS[0])
            d.config["reprojection_error_sd"] = sd
            for im in ("a.jpg", "b.jpg", "c.jpg"):
                pts, desc, col, seg, inst = raw(im, variant)
                f = d._feature_file(im) if hasattr(d, "_feature_file") else None
                if f is None or not os.path.exists(f):
                    return
                z = dict(points=pts.astype(np.float32), descriptors=desc.astype(np.uint8), colors=col)
                if version >= 1:
                    z["OPENSFM_FEATURES_VERSION"] = version
                if version >= 2:
                    z.update(segmentations=seg, instances=inst, segmentation_labels=["x"])
                with open(f, "wb") as fo:
                    np.savez_compressed(fo, **z)
            loader = feature_loading.FeatureLoader()
            for im, masked in itertools.product(("a.jpg", "b.jpg", "c.jpg"), (True, False)):
                ck.ev()
                g = loader.load_all_data(d, im, masked, False)
                pts, desc, col, seg, inst = raw(im, variant)
                pts = pts.astype(np.float32)
                if version == 0:
                    pts[:, 2] = sd
                what = "features of version %d, reprojection_error_sd %g, %s" % (version, sd, im)
                ck.expect(g is not None and near(g.points, pts[:, :g.points.shape[1]]) and near(np.asarray(g.descriptors, float), desc) and near(g.colors, col),
                          "old", "%s: %r" % (what, None if g is None else g.points))
                if version >= 2 and len(pts):
                    ck.expect(g.semantic is not None and list(g.semantic.segmentation) == list(seg) and list(g.semantic.instances) == list(inst),
                              "old-labels", "%s: labels" % what)
                ck.outcome((version, sd, variant, im))
            loader.clear_cache()
    # a mask keeps everything in step, depths included
    pts, desc, col, seg, inst = raw("a.jpg")
    n = len(pts)
    for bits in range(2 ** n):
        m = np.array([(bits >> i) & 1 for i in range(n)], bool)
        for sem, depth in itertools.product((0, 1, 2), (0, 1)):
            ck.ev()
            s = features.SemanticData(seg, inst if sem == 2 else None, []) if sem else None
            g = features.FeaturesData(pts, desc, col, s, np.arange(n) + 0.5 if depth else None).mask(m)
            ok = near(g.points, pts[m]) and near(g.descriptors, desc[m]) and near(g.colors, col[m])
            ok = ok and (g.depths is None if not depth else list(g.depths) == list((np.arange(n) + 0.5)[m]))
            ok = ok and ((g.semantic is None) == (not sem))
            if sem:
                ok = ok and list(g.semantic.segmentation) == list(seg[m]) and (g.semantic.instances is None if sem == 1 else list(g.semantic.instances) == list(inst[m]))
            ck.expect(ok, "mask-step", "mask %r of features with %s semantic, depths: %r" % (m, sem, g.__dict__))


def check(ck, case):
    if case[0] == "old":
        old(ck, case[1])
    elif case[0] == "two":
        two(ck, case[1])
    elif case[0] == "three":
        two(ck, case[1], 3, case[2])
    else:
        again(ck, case[1])
