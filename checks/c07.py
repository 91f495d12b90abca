"""C07: a dataset gives back what was last saved in it, whatever else is saved, and only that."""
import gzip
import io as pyio
import itertools
import os
import pickle
import shutil
import struct

import cv2
import numpy as np
import PIL.Image
from opensfm import dataset, features, geo, io, pygeometry, pymap, types

LEVEL = "model_checking"
RULE = ("every save operation of a dataset from the empty and from the full dataset, and all pairs (thorough: of all kinds) of them; after each "
        "history everything is loaded by a new dataset object and compared with the last value saved; all image/mask list files "
        "of a family; all subsets of a dataset; all pickled globals of a family; non-trivial: distinct dataset contents")
ASSUMPTIONS = ["one process writes at a time", "undistorted images in a lossless format"]
IM = ["a.png", "a.png.png", "b c.PNG"]


# values ---------------------------------------------------------------------------
def arr(k, *shape, dtype=float, mod=251):
    n = int(np.prod(shape))
    return ((np.arange(n) * (7 + 2 * k) + 3 * k) % mod).reshape(shape).astype(dtype)


def feats(k):
    n = [3, 0, 5][k]
    sem = None
    if k:
        sem = features.SemanticData(arr(k, n, dtype=np.uint8), arr(k, n, dtype=np.int16, mod=3000) if k == 2 else None, [])
    return features.FeaturesData(arr(k, n, 4).astype(np.float32) / 256, arr(k, n, 8, dtype=np.float32), arr(k, n, 3), sem)


def camera(k, cid):
    c = pygeometry.Camera.create_brown(0.7 + k / 8, 1.25, np.array([0.1, -0.2]), np.array([0.01 * k, 0.2, 0.3, 0.4, 0.5]))
    c.id, c.width, c.height = cid, 100 + k, 75
    return c


def cameras(k):
    return {cid: camera(k + i, cid) for i, cid in enumerate([["v2 x 1", "b"], ["v2 x 1"], []][k])}


def rigcams(k):
    return {rid: pymap.RigCamera(pygeometry.Pose(np.array([0.1, k, 0.3]), np.array([k, 2.0, i])), rid)
            for i, rid in enumerate([["left", "v2 x 1"], ["left"], ["v2 x 1", "b", "zz"]][k])}


def tracks(k):
    t = pymap.TracksManager()
    for i in range([3, 0, 5][k]):
        o = pymap.Observation(0.125 * i, 0.25 * k, 0.5, 10 * i, 20, 30 + k, i, 4, 5)
        t.add_observation("im%d" % (i % 2), str(i // 2), o)
    return t


def recon(k):
    out = []
    for j in range([1, 2, 0][k]):
        r = types.Reconstruction()
        c = camera(k + j, "cam")
        r.add_camera(c)
        s = r.create_shot("s%d" % j, "cam", pygeometry.Pose(np.array([0.1 * k, 0.2, 0.3]), np.array([j, 2.0, 3.0])))
        s.metadata.capture_time.value = 12.5 + k
        r.create_point("p%d" % k, [1.0, 2.0, k])
        r.points["p%d" % k].color = [1, 2, 3 + k]
        r.reference = geo.TopocentricConverter(1.0 + k, 2.0, 3.0)
        out.append(r)
    return out


def gcps(k):
    out = []
    for i in range([2, 0, 1][k]):
        p = pymap.GroundControlPoint()
        p.id = "g%d" % i
        p.lla = {"latitude": 1.5 + k, "longitude": 2.5, "altitude": 3.25}
        p.has_altitude = True
        o = pymap.GroundControlPointObservation()
        o.shot_id, o.projection = IM[i], np.array([0.1, 0.2 * k])
        p.add_observation(o)
        out.append(p)
    return out


# comparable forms -------------------------------------------------------------------
def A(x):
    x = np.asarray(x)
    return (str(x.dtype), x.shape, x.tolist())


def vfeat(f):
    s = f.semantic
    return (A(f.points), A(f.descriptors), A(f.colors),
            None if s is None else (A(s.segmentation), None if s.instances is None else A(s.instances)))


def vcam(c):
    return (c.id, c.projection_type, c.width, c.height, sorted((str(k), v) for k, v in c.get_parameters_map().items()))


def vcams(d):
    return {k: vcam(v) for k, v in d.items()}


def vrig(d):
    return {k: (v.id, [round(float(x), 12) for x in v.pose.rotation], [round(float(x), 12) for x in v.pose.translation]) for k, v in d.items()}


def vtracks(t):
    out = []
    for s in sorted(t.get_shot_ids()):
        for tr, o in sorted(t.get_shot_observations(s).items()):
            out.append((s, tr, [float(v) for v in o.point], float(o.scale), o.color.tolist(), o.id, o.segmentation, o.instance))
    return out


def vrec(recs):
    return [({k: vcam(c) for k, c in r.cameras.items()},
             {k: ([round(float(v), 12) for v in s.pose.rotation], s.pose.translation.tolist(), s.metadata.capture_time.value) for k, s in r.shots.items()},
             {k: (p.coordinates.tolist(), np.asarray(p.color).tolist()) for k, p in r.points.items()},
             (r.reference.lat, r.reference.lon, r.reference.alt)) for r in recs]


def vgcp(pts):
    return [(p.id, dict(p.lla), p.has_altitude, [(o.shot_id, list(o.projection)) for o in p.observations]) for p in pts]


def vcloud(t):
    return tuple(A(x) for x in t)


def ident(x):
    return x


def wrap_features(f):
    """what a v3 file of HAHOG features must give: float descriptors and colours, no semantics without features"""
    s = f.semantic
    if s is not None and len(s.segmentation) == 0:
        s = None
    return vfeat(features.FeaturesData(f.points, f.descriptors.astype(np.float32), f.colors.astype(float), s))


class Slot:
    def __init__(self, name, value, save, load, exists=None, view=ident, want=None, missing=IOError, group="g"):
        self.name, self.value, self.save, self.load, self.exists = name, value, save, load, exists
        self.view, self.want, self.missing, self.group = view, want or view, missing, group


def slots():
    out = []

    def add(*a, **k):
        out.append(Slot(*a, **k))
    for i, im in enumerate(IM):
        def u(ds):
            return ds.undistorted_dataset()
        add("exif:" + im, lambda k, i=i: [{"make": "x", "width": 10 + i, "gps": {"latitude": 1.5}}, {"k\u00e9": [1, None, "\u4e2d"]}, {}][k],
            lambda ds, v, im=im: ds.save_exif(im, v), lambda ds, im=im: ds.load_exif(im), lambda ds, im=im: ds.exif_exists(im), group="exif")
        add("features:" + im, feats, lambda ds, v, im=im: ds.save_features(im, v), lambda ds, im=im: ds.load_features(im),
            lambda ds, im=im: ds.features_exist(im), vfeat, wrap_features, group="features")
        add("words:" + im, lambda k, i=i: arr(k + i, [4, 0, 2][k], 5, dtype=np.int32, mod=65536) * (1 + 4999 * k) % 65536, lambda ds, v, im=im: ds.save_words(im, v),
            lambda ds, im=im: ds.load_words(im), lambda ds, im=im: ds.words_exist(im), A, group="features")
        add("matches:" + im, lambda k, i=i: {o: arr(k + j, [3, 0, 2][(k + j) % 3], 2, dtype=int) if (k, j - i) != (1, 1) else np.array([]) for j, o in enumerate(IM) if j != i and (k < 2 or j > i)},
            lambda ds, v, im=im: ds.save_matches(im, v), lambda ds, im=im: ds.load_matches(im), lambda ds, im=im: ds.matches_exists(im),
            lambda d: {k: A(v) for k, v in d.items()}, group="matches")
        add("uimage:" + im, lambda k, i=i: arr(k + i, 3 + k, 4, 3, dtype=np.uint8), lambda ds, v, im=im: u(ds).save_undistorted_image(im, v),
            lambda ds, im=im: u(ds).load_undistorted_image(im), None, A, group="undist")
        add("umask:" + im, lambda k, i=i: arr(k + i, 3, 4 + k, dtype=np.uint8), lambda ds, v, im=im: u(ds).save_undistorted_mask(im, v),
            lambda ds, im=im: u(ds).load_undistorted_mask(im), lambda ds, im=im: u(ds).undistorted_mask_exists(im), A, group="undist")
        add("useg:" + im, lambda k, i=i: arr(k + i + 1, 2, 4 + k, dtype=np.uint8), lambda ds, v, im=im: u(ds).save_undistorted_segmentation(im, v),
            lambda ds, im=im: u(ds).load_undistorted_segmentation(im), lambda ds, im=im: u(ds).undistorted_segmentation_exists(im), A, group="undist")
        add("raw:" + im, lambda k, i=i: (arr(k, 2, 3).astype(np.float32), arr(k + 1, 2, 3, 3).astype(np.float32) / 7, arr(k + 2, 2, 3).astype(np.float32),
                                        arr(k + 3, 2, 3, dtype=np.int32), [IM[:2], IM[1:2], IM][k]),
            lambda ds, v, im=im: u(ds).save_raw_depthmap(im, *v), lambda ds, im=im: u(ds).load_raw_depthmap(im),
            lambda ds, im=im: u(ds).raw_depthmap_exists(im), lambda t: [A(x)[1:] if j == 4 else A(x) for j, x in enumerate(t)], group="depth")
        add("clean:" + im, lambda k, i=i: tuple(arr(k + i + j, 2, 3).astype(np.float32) / 3 for j in range(3)),
            lambda ds, v, im=im: u(ds).save_clean_depthmap(im, *v), lambda ds, im=im: u(ds).load_clean_depthmap(im),
            lambda ds, im=im: u(ds).clean_depthmap_exists(im), vcloud, group="depth")
        add("pruned:" + im, lambda k, i=i: (arr(k, 4, 3).astype(np.float32) / 3, arr(k + 1, 4, 3).astype(np.float32) / 9, arr(k + 2, 4, 3, dtype=np.uint8), arr(k + i, 4, dtype=np.uint8)),
            lambda ds, v, im=im: u(ds).save_pruned_depthmap(im, *v), lambda ds, im=im: u(ds).load_pruned_depthmap(im),
            lambda ds, im=im: u(ds).pruned_depthmap_exists(im), vcloud, group="depth")
        add("report:" + im, lambda k, i=i: ["{}", "caf\u00e9\n\n%d" % i, ""][k], lambda ds, v, im=im: ds.save_report(v, "features/%s.json" % im),
            lambda ds, im=im: ds.load_report("features/%s.json" % im), group="report")

    def u(ds):
        return ds.undistorted_dataset()
    add("report", lambda k: ["[1]", "x\ny", ""][k], lambda ds, v: ds.save_report(v, "tracks.json"), lambda ds: ds.load_report("tracks.json"), group="report")
    for fn in (None, "tracks.other.csv"):
        add("tracks:%s" % fn, tracks, lambda ds, v, fn=fn: ds.save_tracks_manager(v, fn), lambda ds, fn=fn: ds.load_tracks_manager(fn),
            lambda ds, fn=fn: ds.tracks_exists(fn), vtracks, group="tracks")
    add("utracks", tracks, lambda ds, v: (os.makedirs(u(ds).data_path, exist_ok=True), u(ds).save_undistorted_tracks_manager(v)),
        lambda ds: u(ds).load_undistorted_tracks_manager(), None, vtracks, group="tracks")
    for fn in (None, "reconstruction.other.json"):
        add("recon:%s" % fn, recon, lambda ds, v, fn=fn: ds.save_reconstruction(v, fn), lambda ds, fn=fn: ds.load_reconstruction(fn),
            lambda ds, fn=fn: ds.reconstruction_exists(fn), vrec, group="recon")
    add("urecon", recon, lambda ds, v: u(ds).save_undistorted_reconstruction(v), lambda ds: u(ds).load_undistorted_reconstruction(), None, vrec, group="recon")
    add("ushots", lambda k: [{"a.png": ["a.png"]}, {"a.png": ["a_0", "a_1"], "b": []}, {}][k], lambda ds, v: u(ds).save_undistorted_shot_ids(v),
        lambda ds: u(ds).load_undistorted_shot_ids(), group="recon")
    add("reference", lambda k: geo.TopocentricConverter([47.1, -33.25, 0.0][k], [8.5, 151.125, 0.0][k], [300.5, 0.0, -2.0][k]),
        lambda ds, v: ds.save_reference(v), lambda ds: ds.load_reference(), lambda ds: ds.reference_exists(), lambda r: (r.lat, r.lon, r.alt))
    add("cameras", cameras, lambda ds, v: ds.save_camera_models(v), lambda ds: ds.load_camera_models(), None, vcams)
    add("camover", cameras, lambda ds, v: ds.save_camera_models_overrides(v), lambda ds: ds.load_camera_models_overrides(),
        lambda ds: ds.camera_models_overrides_exists(), vcams)
    add("exifover", lambda k: [{"a.png": {"make": "q"}}, {"b": {"gps": {"latitude": 1.0}}}, {}][k], lambda ds, v: ds.save_exif_overrides(v),
        lambda ds: ds.load_exif_overrides(), lambda ds: ds.exif_overrides_exists())
    add("rigcams", rigcams, lambda ds, v: ds.save_rig_cameras(v), lambda ds: ds.load_rig_cameras(), None, vrig, missing="rig")
    add("rigassign", lambda k: [{"0": [["a.png", "left"], ["b c.PNG", "right"]]}, {"x": [["a.png", "left"]], "y": []}, {}][k],
        lambda ds, v: ds.save_rig_assignments(v), lambda ds: ds.load_rig_assignments(), missing="empty")
    add("gcp", gcps, lambda ds, v: ds.save_ground_control_points(v), lambda ds: io.read_ground_control_points(io.open_rt(ds._ground_control_points_file())), None, vgcp)
    for fn in ("merged.ply", "other.ply"):
        add("cloud:" + fn, lambda k: (arr(k, [4, 0, 2][k], 3).astype(np.float32) / 16 - 3, np.float32([[0.5, -0.25, 1.0]] * [4, 0, 2][k]).reshape(-1, 3),
                                     arr(k + 2, [4, 0, 2][k], 3, dtype=np.uint8), arr(k, [4, 0, 2][k], dtype=np.uint8)),
            lambda ds, v, fn=fn: u(ds).save_point_cloud(*v, fn), lambda ds, fn=fn: u(ds).load_point_cloud(fn), None, vcloud, group="depth")
    return out


SL = slots()
NV = 3


def fresh(path):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(os.path.join(path, "images"))
    for i, im in enumerate(IM):
        cv2.imwrite(os.path.join(path, "images", im + ".png"), arr(i, 2, 3, 3, dtype=np.uint8))
        os.rename(os.path.join(path, "images", im + ".png"), os.path.join(path, "images", im))
    os.makedirs(os.path.join(path, "features"))


def audit(ck, path, model, what):
    """everything the dataset gives against the model {slot index: value index}"""
    ds = dataset.DataSet(path)
    ck.state(sorted(model.items()))
    ck.add("traces")
    ck.sample({"history": what})
    for i, s in enumerate(SL):
        ck.ev()
        if s.exists is not None:
            ck.expect(bool(s.exists(ds)) == (i in model), "exists:" + s.name, "%s: %s is said to exist=%r" % (what, s.name, s.exists(ds)))
        if i in model or s.missing in ("empty", "rig"):
            if s.missing == "rig":
                ci = [j for j, t in enumerate(SL) if t.name == "cameras"][0]
                if ci not in model:
                    continue
                want = {c: (c, [0.0] * 3, [0.0] * 3) for c in cameras(model[ci])}
                if i in model:
                    want.update(s.want(s.value(model[i])))
            elif i in model:
                want = s.want(s.value(model[i]))
            else:
                want = {}
            got = s.view(s.load(ds))
            ck.expect(got == want, "load:" + s.name.split(":")[0], "%s: %s is loaded as\n%r\ninstead of\n%r" % (what, s.name, got, want))
        else:
            try:
                got = s.load(ds)
            except IOError:
                continue
            ck.fail("phantom:" + s.name.split(":")[0], "%s: %s was never saved but is loaded as %r" % (what, s.name, got))
    mi = {s.name[8:]: j for j, s in enumerate(SL) if s.name.startswith("matches:")}
    for a, b in itertools.permutations(IM, 2):
        want = []
        if mi[a] in model and b in SL[mi[a]].value(model[mi[a]]):
            want = SL[mi[a]].value(model[mi[a]])[b].tolist()
        elif mi[b] in model and a in SL[mi[b]].value(model[mi[b]]):
            want = [[x[1], x[0]] for x in SL[mi[b]].value(model[mi[b]])[a].tolist()]
        got = np.asarray(ds.find_matches(a, b)).tolist()
        ck.expect(got == want, "find_matches", "%s: matches of %r and %r are %r instead of %r" % (what, a, b, got, want))


def do(ck, path, model, i, k, what):
    s = SL[i]
    v = s.value(k)
    before = s.want(s.value(k))
    s.save(dataset.DataSet(path), v)
    ck.transition()
    ck.expect(s.want(v) == before, "save-changes:" + s.name.split(":")[0], "%s: saving %s changed what the caller holds" % (what, s.name))
    model[i] = k


def cases(ck):
    out = [["one", i] for i in range(len(SL))]
    pairs = [(i, j) for i in range(len(SL)) for j in range(len(SL)) if (SL[i].group == SL[j].group or not ck.quick)]
    n = 40
    out += [["pairs", pairs[a:a + n]] for a in range(0, len(pairs), n)]
    out += [["lists", i] for i in range(4)] + [["subset", i] for i in range(8)] + [["pickles"], ["npz"], ["oldfeatures"], ["semantics"], ["logs"], ["invent"], ["rigfile"], ["images"]]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


def do_one(ck, i):
    path = os.path.join(ck.scratch, "one")
    for k in range(NV):
        fresh(path)
        model = {}
        do(ck, path, model, i, k, "first save of %s" % SL[i].name)
        audit(ck, path, model, "only %s=%d" % (SL[i].name, k))
    fresh(path)
    model = {}
    for j in range(len(SL)):
        do(ck, path, model, j, 0, "full")
    audit(ck, path, model, "full")
    for k in (1, 2, 0):
        do(ck, path, model, i, k, "full, then")
        audit(ck, path, model, "full, then %s=%d" % (SL[i].name, k))


def do_pairs(ck, pairs):
    path = os.path.join(ck.scratch, "pairs")
    for i, j in pairs:
        fresh(path)
        model = {}
        do(ck, path, model, i, 0, "pair")
        do(ck, path, model, j, 1, "pair")
        do(ck, path, model, i, 2, "pair")
        audit(ck, path, model, "%s=0, %s=1, %s=2" % (SL[i].name, SL[j].name, SL[i].name))


EXT = ["jpg", "jpeg", "png", "tif", "tiff", "pgm", "pnm", "gif"]


def tiny(path, k, gray=False):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    ok, buf = cv2.imencode(".png", arr(k, 3, 2 + k % 3, dtype=np.uint8) if gray else arr(k, 3, 2 + k % 3, 3, dtype=np.uint8)[:, :, ::-1])
    with open(path, "wb") as f:
        f.write(buf.tobytes())


def do_lists(ck, variant):
    """which images and masks a dataset has"""
    names = ["a.jpg", "B.JPEG", "c.PnG", "d.tif", "e.TIFF", "f.pgm", "g.pnm", "h.gif", "i.txt", "jpg", "k.jpg.bak", "l.mp4", ".jpg", "m.n.png", "o jpg.png"]
    path = os.path.join(ck.scratch, "lists")
    listed = bool(variant & 1)
    mlisted = bool(variant & 2)
    for chosen in itertools.chain(itertools.combinations(range(4), 2), [(0, 1, 2, 3)]):
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(os.path.join(path, "masks"))
        for k, n in enumerate(names):
            tiny(os.path.join(path, "images", n), k)
        for k in range(4):
            tiny(os.path.join(path, "elsewhere", "x%d.png" % k), 20 + k)
            tiny(os.path.join(ck.scratch, "outside", "y%d.png" % k), 30 + k)
        if listed:
            want = {}
            lines = []
            for c in chosen:
                lines += ["elsewhere/x%d.png" % c, os.path.join(ck.scratch, "outside", "y%d.png" % c), "images/" + names[c]]
                want.update({"x%d.png" % c: 20 + c, "y%d.png" % c: 30 + c, names[c]: c})
            with open(os.path.join(path, "image_list.txt"), "w") as f:
                f.write("\n".join(lines) + ("\n" if len(chosen) == 2 else ""))
        else:
            want = {n: k for k, n in enumerate(names) if n.split(".")[-1].lower() in EXT}
        masks = {}
        for k, n in enumerate(sorted(want)):
            if k % 2 == len(chosen) % 2:
                if mlisted:
                    tiny(os.path.join(path, "m", "mask %d.png" % k), 40 + k, True)
                else:
                    tiny(os.path.join(path, "masks", n + ".png"), 40 + k, True)
                masks[n] = (40 + k, "m/mask %d.png" % k)
        tiny(os.path.join(path, "masks", "stranger.jpg.png"), 1, True)
        if mlisted:
            masks = {n: v for n, v in masks.items() if " " not in n}
            with open(os.path.join(path, "mask_list.txt"), "w") as f:
                f.write("".join("%s  %s\n" % (n, m[1]) for n, m in masks.items()))
        for data_path in (path, os.path.relpath(path)):
            ds = dataset.DataSet(data_path)
            ck.ev()
            got = ds.images()
            ck.outcome((variant, chosen))
            ck.expect(sorted(got) == sorted(want), "image-list", "images are %r instead of %r" % (sorted(got), sorted(want)))
            if listed:
                ck.expect(got == [os.path.basename(x) for x in lines], "image-list-order", "images are %r for %r" % (got, lines))
            for n in got:
                px = ds.load_image(n)
                ref = arr(want[n], 3, 2 + want[n] % 3, 3, dtype=np.uint8)
                ck.expect(np.array_equal(px, ref), "image-pixels", "image %r is %r instead of %r" % (n, px.tolist(), ref.tolist()))
                ck.expect(tuple(ds.image_size(n)) == ref.shape[:2], "image-size", "size of %r is %r" % (n, ds.image_size(n)))
                with ds.open_image_file(n) as f:
                    ck.expect(f.read(4) == b"\x89PNG", "image-file", "file of %r" % n)
                mk = ds.load_mask(n)
                if n in masks:
                    ref = arr(masks[n][0], 3, 2 + masks[n][0] % 3, dtype=np.uint8)
                    ck.expect(mk is not None and np.array_equal(mk, ref), "mask", "mask of %r is %r instead of %r" % (n, mk, ref.tolist()))
                else:
                    ck.expect(mk is None, "mask-phantom", "image %r has a mask" % n)


def do_subset(ck, bits):
    root = os.path.join(ck.scratch, "sub%d" % bits)
    names = ["a.jpg", "b.jpg", "a.jpg.jpg"]
    for k, n in enumerate(names):
        tiny(os.path.join(root, "images", n), k)
        if bits & 1 and k != 1:
            tiny(os.path.join(root, "masks", n + ".png"), 10 + k, True)
        if bits & 2 and k != 0:
            tiny(os.path.join(root, "segmentations", n + ".png"), 20 + k, True)
    if bits & 4:
        with open(os.path.join(root, "config.yaml"), "w") as f:
            f.write("processes: 7\n")
        full = dataset.DataSet(root)
        full.save_camera_models(cameras(0))
        full.save_camera_models_overrides(cameras(1))
        full.save_exif_overrides({"a.jpg": {"make": "z"}})
    before = {}
    for base, _, fs in os.walk(root):
        for f in fs:
            before[os.path.join(base, f)] = open(os.path.join(base, f), "rb").read()
    cwd = os.getcwd()
    try:
        for rel in (False, True):
            os.chdir(ck.scratch if rel else cwd)
            ds = dataset.DataSet("sub%d" % bits if rel else root)
            for r in range(1, 4):
                for sub in itertools.combinations(names, r):
                    for again in range(2):
                        got = ds.subset("part%d%s" % (rel, "".join(str(names.index(s)) for s in sub)), list(sub))
                    ck.ev()
                    ck.outcome((bits, rel, sub))
                    what = "subset %r (relative path: %r)" % (sub, rel)
                    ck.expect(sorted(got.images()) == sorted(sub), "subset-images", "%s has images %r" % (what, got.images()))
                    for n in sub:
                        for fn in ("load_image", "load_mask", "load_segmentation"):
                            x, y = getattr(ds, fn)(n), getattr(got, fn)(n)
                            ck.expect((x is None and y is None) or (x is not None and y is not None and np.array_equal(x, y)), "subset-" + fn,
                                      "%s: %s(%r) is %r instead of %r" % (what, fn, n, y, x))
                    ck.expect(got.config == ds.config, "subset-config", "%s: other configuration" % what)
                    ck.expect(got.config["processes"] == (7 if bits & 4 else 1), "subset-config", "%s: processes=%r" % (what, got.config["processes"]))
                    for fn, ex in [("load_camera_models_overrides", "camera_models_overrides_exists"), ("load_exif_overrides", "exif_overrides_exists")]:
                        ck.expect(getattr(got, ex)() == bool(bits & 4), "subset-" + ex, "%s: %s" % (what, ex))
                    if bits & 4:
                        ck.expect(vcams(got.load_camera_models()) == vcams(cameras(0)), "subset-cameras", "%s: cameras" % what)
                        ck.expect(vcams(got.load_camera_models_overrides()) == vcams(cameras(1)), "subset-overrides", "%s: overrides" % what)
                        ck.expect(got.load_exif_overrides() == {"a.jpg": {"make": "z"}}, "subset-exif", "%s: exif overrides" % what)
    finally:
        os.chdir(cwd)
    for f, content in before.items():
        ck.expect(open(f, "rb").read() == content, "subset-source", "making subsets changed %s" % f)
    # the dataset is moved and the subsets are made again
    shutil.rmtree(root + "b", ignore_errors=True)
    os.rename(root, root + "b")
    ds = dataset.DataSet(root + "b")
    for sub in (names[:1], names[:2], names):
        ck.ev()
        try:
            got = ds.subset("part0" + "".join(str(names.index(s)) for s in sub), list(sub))
        except Exception as e:
            ck.fail("subset-moved", "the subset %r of a moved dataset cannot be made again: %r" % (sub, e))
            continue
        ck.expect(sorted(got.images()) == sorted(sub) and all(np.array_equal(ds.load_image(n), got.load_image(n)) for n in sub), "subset-moved", "the subset %r of a moved dataset" % (sub,))
    shutil.rmtree(root + "b")


class Mark:
    calls = []

    @staticmethod
    def hit(*a):
        Mark.calls.append(a)
        return {}


def glob_pickle(module, name, proto, args=("x",)):
    """a pickle that calls module.name(*args)"""
    if proto >= 4:
        g = b"\x8c" + bytes([len(module)]) + module.encode() + b"\x8c" + bytes([len(name)]) + name.encode() + b"\x93"
    else:
        g = b"c" + module.encode() + b"\n" + name.encode() + b"\n"
    a = b"(" + b"".join(b"X" + struct.pack("<I", len(x)) + x.encode() for x in args) + b"t"
    return (b"\x80" + bytes([proto]) if proto >= 2 else b"") + g + a + b"R."


def do_pickles(ck):
    """a matches file cannot name anything but what arrays are made of"""
    path = os.path.join(ck.scratch, "pick")
    fresh(path)
    ds = dataset.DataSet(path)
    globs = [("c07", "Mark.hit"), ("c07", "do"), ("builtins", "eval"), ("builtins", "exec"), ("builtins", "getattr"), ("builtins", "print"), ("os", "getcwd"),
             ("posix", "getpid"), ("numpy", "load"), ("numpy", "array"), ("numpy", "fromfile"), ("numpy", "save"), ("numpy.core.multiarray", "fromfile"),
             ("numpy._core.multiarray", "frombuffer"), ("numpy._core.multiarray", "array"), ("numpy", "ndarray.tofile"), ("numpy", "ndarray.__class__"),
             ("numpy", "os.getcwd"), ("numpy.ndarray", "tofile"), ("numpy", "dtype.__class__"), ("collections", "OrderedDict"), ("functools", "partial"), ("copyreg", "_reconstructor"),
             ("numpy._core", "multiarray._reconstruct.__class__"), ("", "numpy.ndarray"), ("subprocess", "Popen"), ("numpy.lib.npyio", "load"), ("pickle", "loads")]
    for proto in (0, 1, 2, 3, 4, 5):
        for m, n in globs:
            if proto < 4 and "\n" in m + n:
                continue
            ck.ev()
            ck.outcome((m, n, proto))
            Mark.calls.clear()
            os.makedirs(os.path.join(path, "matches"), exist_ok=True)
            with open(os.path.join(path, "matches", "a.png_matches.pkl.gz"), "wb") as f:
                f.write(gzip.compress(glob_pickle(m, n, proto, ("1",) if n in ("eval", "exec") else ())))
            try:
                got = ds.load_matches("a.png")
            except Exception as e:
                ck.expect(isinstance(e, (pickle.UnpicklingError, AttributeError, ValueError, KeyError)), "pickle-error", "loading %s.%s gave %r" % (m, n, e))
            else:
                ck.fail("pickle-loaded", "a matches file calling %s.%s (protocol %d) was loaded as %r" % (m, n, proto, got))
            ck.expect(not Mark.calls, "pickle-called", "loading a matches file called %s.%s" % (m, n))
    # what real files contain, in all protocols, is read
    val = {"b": np.arange(6, dtype=np.int32).reshape(3, 2), "c": np.zeros((0, 2), int), "d": [(np.int64(1), np.int64(2))]}
    for proto in (3, 4):
        for old in (False, True):
            raw = pickle.dumps(val, protocol=proto)
            if old:
                if proto >= 4:
                    continue
                raw = raw.replace(b"numpy._core.multiarray", b"numpy.core.multiarray")
            with open(os.path.join(path, "matches", "a.png_matches.pkl.gz"), "wb") as f:
                f.write(gzip.compress(raw))
            ck.ev()
            got = ds.load_matches("a.png")
            ck.expect({k: np.asarray(v).tolist() for k, v in got.items()} == {k: np.asarray(v).tolist() for k, v in val.items()}, "pickle-protocol",
                      "matches written with protocol %d are read as %r" % (proto, got))


def do_npz(ck):
    """feature and word files cannot hold pickled objects"""
    path = os.path.join(ck.scratch, "npz")
    fresh(path)
    ds = dataset.DataSet(path)
    base = dict(points=arr(0, 3, 4).astype(np.float32), descriptors=arr(1, 3, 8, dtype=np.uint8), colors=arr(2, 3, 3))
    sem = dict(segmentations=arr(0, 3, dtype=np.uint8), instances=arr(1, 3, dtype=np.int16), segmentation_labels=np.array(["l"]))

    class Bomb:
        def __reduce__(self):
            return (Mark.hit, ("npz",))
    for version in (None, 1, 2, 3):
        for fieldname in list(base) + (list(sem) if version in (2, 3) else []):
            d = dict(base, **(sem if version in (2, 3) else {}))
            d[fieldname] = np.array([Bomb()] * 3, dtype=object)
            if version is not None:
                d["OPENSFM_FEATURES_VERSION"] = version
            Mark.calls.clear()
            with open(os.path.join(path, "features", "a.png.features.npz"), "wb") as f:
                np.savez_compressed(f, **d)
            ck.ev()
            ck.outcome((version, fieldname))
            try:
                ds.load_features("a.png")
                ck.expect(version == 2 and fieldname in sem, "npz-object", "a features file (version %r) with objects in %s was loaded" % (version, fieldname))
            except ValueError:
                pass
            ck.expect(not Mark.calls, "npz-called", "loading a features file (version %r) ran the code in %s" % (version, fieldname))
    Mark.calls.clear()
    with open(os.path.join(path, "features", "a.png.words.npz"), "wb") as f:
        np.savez_compressed(f, words=np.array([Bomb()], dtype=object))
    try:
        ds.load_words("a.png")
        ck.fail("npz-object", "a words file with objects was loaded")
    except ValueError:
        pass
    ck.expect(not Mark.calls, "npz-called", "loading a words file ran the code in it")


def do_oldfeatures(ck):
    """all versions of feature files, feature types and the legacy file name"""
    path = os.path.join(ck.scratch, "old")
    for ftype, uchar, akaze in [("HAHOG", True, "MSURF"), ("HAHOG", False, "MSURF"), ("AKAZE", True, "MLDB"), ("AKAZE", True, "MLDB_UPRIGHT"), ("AKAZE", True, "MSURF"), ("AKAZE", False, "KAZE_UPRIGHT"),
                                ("ORB", True, "MSURF"), ("SIFT", True, "MLDB"), ("SURF", False, "MLDB")]:
        fresh(path)
        with open(os.path.join(path, "config.yaml"), "w") as f:
            f.write("feature_type: %s\nhahog_normalize_to_uchar: %s\nakaze_descriptor: %s\nreprojection_error_sd: 0.5\n" % (ftype, str(uchar).lower(), akaze))
        ds = dataset.DataSet(path)
        binary = ftype == "ORB" or (ftype == "AKAZE" and akaze.startswith("MLDB")) or (ftype == "HAHOG" and uchar)
        read_as = np.float32 if ftype == "HAHOG" or not binary else np.uint8
        for n, sem, inst in [(4, 0, 0), (4, 1, 0), (4, 1, 1), (0, 0, 0), (1, 1, 1)]:
            s = features.SemanticData(arr(1, n, dtype=np.uint8), arr(3, n, dtype=np.int16, mod=9999) if inst else None, [{"name": "x"}]) if sem else None
            f = features.FeaturesData(arr(0, n, 4).astype(np.float32) / 512, arr(1, n, 6, dtype=np.float32), arr(2, n, 3), s)
            ds.save_features("a.png", f)
            g = dataset.DataSet(path).load_features("a.png")
            ck.ev()
            ck.outcome((ftype, uchar, akaze, n, sem, inst))
            want = vfeat(features.FeaturesData(f.points, f.descriptors.astype(read_as), f.colors, s))
            ck.expect(vfeat(g) == want, "features-%s" % ftype, "%s features are read back as\n%r instead of\n%r" % (ftype, vfeat(g), want))
        for version in (None, 1, 2, 3):
            for legacy in (False, True):
                d = dict(points=arr(0, 3, 4).astype(np.float32), descriptors=arr(1, 3, 8, dtype=np.uint8 if binary else np.float32), colors=arr(2, 3, 3, dtype=np.uint8))
                sem = None
                if version in (2, 3):
                    d.update(segmentations=arr(0, 3, dtype=np.uint8), instances=arr(1, 3, dtype=np.int16), segmentation_labels=np.array(["l"]))
                    sem = features.SemanticData(d["segmentations"], d["instances"], [])
                if version is not None:
                    d["OPENSFM_FEATURES_VERSION"] = version
                for fn in ("b c.PNG.features.npz", "b c.PNG.npz"):
                    if os.path.exists(os.path.join(path, "features", fn)):
                        os.remove(os.path.join(path, "features", fn))
                with open(os.path.join(path, "features", "b c.PNG.npz" if legacy else "b c.PNG.features.npz"), "wb") as fp:
                    np.savez_compressed(fp, **d)
                ck.ev()
                ck.outcome((ftype, uchar, akaze, version, legacy))
                ck.expect(ds.features_exist("b c.PNG"), "features-legacy", "features of version %r, legacy=%r do not exist" % (version, legacy))
                g = ds.load_features("b c.PNG")
                pts = d["points"].copy()
                if version is None:
                    pts[:, 2] = 0.5
                want = vfeat(features.FeaturesData(pts, d["descriptors"].astype(np.float32 if ftype == "HAHOG" and uchar else d["descriptors"].dtype), d["colors"].astype(float), sem))
                ck.expect(vfeat(g) == want, "features-v%s" % version, "%s features of version %r are read as\n%r instead of\n%r" % (ftype, version, vfeat(g), want))


    for n in (0, 3):    # the features saved last, also next to a file with the older name
        fresh(path)
        ds = dataset.DataSet(path)
        ds.save_features("a.png", feats(0))
        os.rename(os.path.join(path, "features", "a.png.features.npz"), os.path.join(path, "features", "a.png.npz"))
        ck.expect(vfeat(dataset.DataSet(path).load_features("a.png")) == wrap_features(feats(0)), "features-legacy", "features of the older file name")
        f = features.FeaturesData(arr(5, n, 4).astype(np.float32) / 256, arr(6, n, 8, dtype=np.float32), arr(7, n, 3), None)
        ds.save_features("a.png", f)
        g = dataset.DataSet(path).load_features("a.png")
        ck.ev()
        ck.expect(vfeat(g) == wrap_features(f), "features-stale", "saved %d features beside a file with the older name, %d are loaded" % (n, len(g.points)))


def do_semantics(ck):
    """instances and segmentations of the images: gray files, or the first channel"""
    path = os.path.join(ck.scratch, "sem")
    for kinds in itertools.product(("none", "gray", "rgb", "rgba"), repeat=3):
        fresh(path)
        for sub in ("segmentations", "instances"):
            os.makedirs(os.path.join(path, sub))
        for i, (im, kind) in enumerate(zip(IM, kinds)):
            if kind == "none":
                continue
            n = {"gray": 1, "rgb": 3, "rgba": 4}[kind]
            a = arr(3 * i, 3, 2 + i, n, dtype=np.uint8)
            PIL.Image.fromarray(a[:, :, 0] if n == 1 else a).save(os.path.join(path, "segmentations", im + ".png"))
            PIL.Image.fromarray(arr(3 * i + 1, 3, 2 + i, dtype=np.uint8)).save(os.path.join(path, "instances", im + ".png"))
        ds = dataset.DataSet(path)
        for i, (im, kind) in enumerate(zip(IM, kinds)):
            s, t = ds.load_segmentation(im), ds.load_instances(im)
            ck.ev()
            ck.outcome((kinds, im))
            if kind == "none":
                ck.expect(s is None and t is None, "semantics-phantom", "%r of %r has %r, %r" % (im, kinds, s, t))
                continue
            n = {"gray": 1, "rgb": 3, "rgba": 4}[kind]
            ck.expect(s is not None and np.array_equal(s, arr(3 * i, 3, 2 + i, n, dtype=np.uint8)[:, :, 0]), "segmentation", "%s segmentation of %r: %r" % (kind, im, s))
            ck.expect(t is not None and np.array_equal(t, arr(3 * i + 1, 3, 2 + i, dtype=np.uint8)), "instances", "instances of %r: %r" % (im, t))


def do_logs(ck):
    path = os.path.join(ck.scratch, "logs")
    fresh(path)
    parts = ["a: 1\n", "", "\u00e9\n", "b: 2"]
    text = ""
    for seq in itertools.product(range(4), repeat=2):
        for i in seq:
            dataset.DataSet(path).append_to_profile_log(parts[i])
            text += parts[i]
            ck.ev()
            got = open(os.path.join(path, "profile.log"), encoding="utf-8").read()
            ck.expect(got == text, "profile-log", "the profile log is %r instead of %r" % (got, text))


def do_invent(ck):
    """the reference: average of GPS weighted by accuracy; else of the GCPs; else zero; never changed once there"""
    path = os.path.join(ck.scratch, "inv")
    gps = [None, {}, {"latitude": 10.0, "longitude": 20.0}, {"latitude": -12.0, "longitude": 21.0, "dop": 2.0}, {"latitude": 11.0, "longitude": 25.0, "altitude": 500.0, "dop": 0.001},
           {"latitude": 50.0}]
    for choice in itertools.product(range(len(gps)), repeat=3):
        for gc in (0, 1):
            fresh(path)
            ds = dataset.DataSet(path)
            for im, c in zip(IM, choice):
                ds.save_exif(im, {"width": 4, "height": 3} if gps[c] is None else {"width": 4, "height": 3, "gps": gps[c]})
            if gc:
                ds.save_ground_control_points(gcps(0))
            for sel in (None, IM[:1]):
                use = [gps[c] for c in (choice if sel is None else choice[:1]) if gps[c] and "longitude" in gps[c]]
                w = [1.0 / max(0.01, g.get("dop", 15)) for g in use]
                if use:
                    want = tuple(sum(a * g[f] for a, g in zip(w, use)) / sum(w) for f in ("latitude", "longitude")) + (0.0,)
                elif gc:
                    want = (1.5, 2.5, 0.0)
                else:
                    want = (0.0, 0.0, 0.0)
                if os.path.exists(os.path.join(path, "reference_lla.json")):
                    os.remove(os.path.join(path, "reference_lla.json"))
                ds.init_reference(sel)
                r = dataset.DataSet(path).load_reference()
                ck.ev()
                ck.outcome((choice, gc, sel is None))
                ck.expect(np.allclose([r.lat, r.lon, r.alt], want, atol=1e-12), "reference", "GPS %r, gcp %r: reference %r instead of %r" % ([gps[c] for c in choice], gc, (r.lat, r.lon, r.alt), want))
            ds.save_reference(geo.TopocentricConverter(1.0, 2.0, 3.0))
            for sel in (None, IM, IM[:1]):
                ds.init_reference(sel)
                r = ds.load_reference()
                ck.expect((r.lat, r.lon, r.alt) == (1.0, 2.0, 3.0), "reference-kept", "an existing reference was replaced by %r" % ((r.lat, r.lon, r.alt),))


def do_rigfile(ck):
    """rig assignments in the older list form"""
    path = os.path.join(ck.scratch, "rigf")
    fresh(path)
    ds = dataset.DataSet(path)
    for n in range(4):
        v = [[["%d.jpg" % i, "left"], ["%d_r.jpg" % i, "right"]] for i in range(n)]
        with open(os.path.join(path, "rig_assignments.json"), "w") as f:
            io.json_dump(v, f)
        ck.ev()
        got = ds.load_rig_assignments()
        ck.expect(got == {str(i): x for i, x in enumerate(v)}, "rig-legacy", "the list %r is read as %r" % (v, got))


def do_images(ck):
    """pixels as stored: colour order, alpha, depth, gray, and images saved by the tool"""
    d = os.path.join(ck.scratch, "px")
    os.makedirs(d, exist_ok=True)
    for h, w in itertools.product((1, 2, 3), (1, 2, 4)):
        for ch in (1, 3, 4):
            for depth in (np.uint8, np.uint16):
                src = (arr(h + w, h, w, ch, dtype=np.uint32, mod=65521) * 3 % (256 if depth == np.uint8 else 65536)).astype(depth)
                img = src[:, :, 0] if ch == 1 else src
                fn = os.path.join(d, "x.png")
                keep = img.copy()
                io.imwrite(fn, img)
                io.IoFilesystemDefault().imwrite(fn, img)
                ck.ev()
                ck.outcome((h, w, ch, depth.__name__))
                ck.expect(np.array_equal(img, keep), "imwrite-changes", "writing an image changed the array of the caller")
                for rd in (io.imread, io.IoFilesystemDefault().imread):
                    got = rd(fn, unchanged=True)
                    ck.expect(got.dtype == depth and np.array_equal(got, keep), "imread-unchanged", "a %dx%dx%d %s image is read as %r instead of %r" % (h, w, ch, depth.__name__, got.tolist(), keep.tolist()))
                    if depth == np.uint8:
                        got = rd(fn)
                        ref = np.repeat(src[:, :, :1], 3, axis=2) if ch == 1 else src[:, :, :3]
                        ck.expect(np.array_equal(got, ref), "imread-color", "a %dx%dx%d image is read as %r instead of %r" % (h, w, ch, got.tolist(), ref.tolist()))
                    if ch == 1:
                        got = rd(fn, grayscale=True, anydepth=True)
                        ck.expect(got.dtype == depth and np.array_equal(got, keep), "imread-gray", "gray image read as %r" % (got.tolist(),))
                if ch == 3 and depth == np.uint8 and h != w:    # the orientation of the EXIF turns no pixels
                    for o in (1, 3, 6, 8):
                        ex = PIL.Image.Exif()
                        ex[0x112] = o
                        big = np.kron(src, np.ones((8, 8, 1), np.uint8))
                        PIL.Image.fromarray(big).save(os.path.join(d, "o.jpg"), exif=ex, quality=95)
                        for kw in ({}, {"grayscale": True}, {"unchanged": True}, {"anydepth": True}):
                            got = io.imread(os.path.join(d, "o.jpg"), **kw)
                            ck.expect(got.shape[:2] == big.shape[:2], "imread-orientation", "a %r image with orientation %d is read (%r) as %r" % (big.shape, o, kw, got.shape))
                ck.expect(tuple(io.image_size(fn)) == (h, w) and tuple(io.IoFilesystemDefault().image_size(fn)) == (h, w), "image-size", "size %r of a %dx%d image" % (io.image_size(fn), h, w))
