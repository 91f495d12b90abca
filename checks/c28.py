"""C28: each image gets its metadata (file, overrides) and each camera its model (overrides, database, metadata, default)."""
import functools
import itertools
import json
import os
import shutil

import yaml
from opensfm import context, dataset, exif, pygeometry
from opensfm.actions import extract_metadata

import c27

LEVEL = "exploration"
RULE = ("all metadata x projection types x calibration sources; all datasets of up to 3 images of a family x overrides x configurations, with reruns; "
        "non-trivial: distinct inputs")
ASSUMPTIONS = ["override files hold complete camera models"]

XY = ("brown", "fisheye_opencv", "radial", "simple_radial", "fisheye62", "fisheye624")
PTS = ("perspective", "fisheye", "dual", "spherical", "equirectangular") + XY
FIELDS = {"perspective": ("focal", "k1", "k2"), "fisheye": ("focal", "k1", "k2"), "dual": ("focal", "k1", "k2"), "spherical": (),
          "brown": ("k1", "k2", "k3", "p1", "p2"), "fisheye_opencv": ("k1", "k2", "k3", "k4"), "radial": ("k1", "k2"), "simple_radial": ("k1",),
          "fisheye62": ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2"), "fisheye624": ("k1", "k2", "k3", "k4", "k5", "k6", "p1", "p2", "s0", "s1", "s2", "s3")}


@functools.lru_cache(1)
def database():
    with open(context.CAMERA_CALIBRATION) as f:
        return yaml.safe_load(f)[0]


def lookup(make, model, focal):
    models = database().get(make.strip().lower())
    if not models:
        return None
    if "ALL" in models:
        return models["ALL"]
    m = model.strip().lower()
    if m in models.get("MODEL", {}):
        return models["MODEL"][m]
    return models.get("FOCAL", {}).get(int(round(focal * 36.0)))


def want_camera(meta, default_focal):
    pt = meta.get("projection_type", "perspective").lower()
    db = lookup(meta["make"], meta["model"], meta["focal_ratio"])
    c = {"projection_type": pt}
    if db:
        c.update(db)
        c.setdefault("focal_x", c.get("focal"))
        c.setdefault("focal_y", c.get("focal"))
    else:
        f = meta["focal_ratio"]
        if pt in XY and "focal_x" in meta:
            f = meta["focal_x"]
            c.update(c_x=meta.get("c_x", 0.0), c_y=meta.get("c_y", 0.0))
        f = f or default_focal
        c.update(focal=f, focal_x=f, focal_y=f)
        if pt in XY and f != default_focal:
            c.update(c_x=meta.get("c_x", 0.0), c_y=meta.get("c_y", 0.0))
    return c


def observe(cam):
    pt = cam.projection_type
    d = {"projection_type": pt, "id": cam.id, "width": cam.width, "height": cam.height}
    if pt in XY:
        d.update(focal_x=cam.focal, focal_y=cam.focal * cam.aspect_ratio, c_x=cam.principal_point[0], c_y=cam.principal_point[1])
    for k in FIELDS[pt if pt != "equirectangular" else "spherical"]:
        d[k] = getattr(cam, k)
    if pt == "dual":
        d["transition"] = cam.transition
    return d


def same_camera(ck, cam, want, meta, key, what):
    got = observe(cam)
    pt = want["projection_type"]
    ok = (got["projection_type"] == pt or {got["projection_type"], pt} == {"spherical", "equirectangular"}) and got["id"] == meta["camera"]
    ok = ok and (got["width"], got["height"]) == (meta["width"], meta["height"])
    for k in got:
        if k in ("projection_type", "id", "width", "height"):
            continue
        if k == "transition":
            ok = ok and 0 <= got[k] <= 1
            continue
        ok = ok and abs(got[k] - want.get(k, 0.0)) < 1e-12
    ck.expect(ok, key, "%s: camera %r instead of %r" % (what, got, want))


class Data:
    def __init__(self, default_focal):
        self.config = {"default_focal_prior": default_focal}


MODELS = [("gopro", "hero8 black"), ("GoPro", "HERO3"), ("Garmin", " VIRB "), ("xiaoyi", "any"), ("Parrot", "Bebop 2"), ("DJI", "ZenmuseP1"), ("DJI", "FC300S"), ("SONY", "HDR-AS300"),
          ("Skydio", "2"), ("Canon", "EOS"), ("unknown", "unknown"), ("geo", "frames"), ("bullet5s", ""), ("drift", "ghost s"), ("garmin", "virbxe"), ("sony", "hdr-as200v")]


def cases(ck):
    out = [["model", i, j] for i in range(len(PTS)) for j in range(len(MODELS))]
    out += [["dataset", i] for i in range(len(IMGS))] + [["override", i] for i in range(16)] + [["order", i] for i in range(len(MODELS))]
    return out


def check(ck, case):
    globals()["do_" + case[0]](ck, *case[1:])


def do_model(ck, pi, mi):
    make, model = MODELS[mi]
    for pt in (PTS[pi], PTS[pi].upper()):
        for focal, fx, c, prior in itertools.product((0.0, 0.8, 20 / 36.0, 15.4 / 36, 22.7 / 36.0, 16 / 36.0), (None, 0.7), (None, (0.01, -0.02)), (0.85, 0.4)):
            meta = {"make": make, "model": model, "focal_ratio": focal, "projection_type": pt, "camera": "id %s" % model, "width": 640, "height": 480}
            if fx:
                meta["focal_x"] = fx
            if c:
                meta["c_x"], meta["c_y"] = c
            keep = dict(meta)
            what = "metadata %r, prior %r" % (meta, prior)
            ck.ev()
            ck.outcome(what)
            try:
                cam = exif.camera_from_exif_metadata(meta, Data(prior))
            except Exception as e:  # noqa: BLE001
                ck.fail("raised:" + type(e).__name__, "%s: %s: %s" % (what, type(e).__name__, e))
                continue
            same_camera(ck, cam, want_camera(meta, prior), meta, "camera", what)
            ck.expect(meta == keep, "metadata-changed", "%s: the metadata became %r" % (what, meta))


def do_order(ck, mi):
    """the camera of one image does not depend on the cameras made before"""
    make, model = MODELS[mi]
    for a, b, c in itertools.product(PTS, repeat=3):
        if ck.quick and (a, b, c) != tuple(sorted((a, b, c), key=PTS.index)) and c != "perspective":
            continue
        for pt in (a, b, c):
            meta = {"make": make, "model": model, "focal_ratio": 0.5, "projection_type": pt, "camera": "x", "width": 64, "height": 48}
            ck.ev()
            ck.outcome((mi, a, b, c))
            cam = exif.camera_from_exif_metadata(meta, Data(0.85))
            same_camera(ck, cam, want_camera(meta, 0.85), meta, "order", "%s %s as %s after %r" % (make, model, pt, (a, b, c)))


# datasets -------------------------------------------------------------------------
PANO = c27.xmp((), [("GPano", "ProjectionType", "equirectangular")])
IMGS = [({"Make": "Canon", "Model": "EOS", "FocalLengthIn35mmFilm": 18, "ExifImageWidth": 640, "ExifImageLength": 480}, None),
        ({"Make": "Canon", "Model": "EOS", "FocalLengthIn35mmFilm": 27, "ExifImageWidth": 640, "ExifImageLength": 480}, None),
        ({"Make": "GoPro", "Model": "HERO8 Black", "ExifImageWidth": 4000, "ExifImageLength": 3000}, None),
        ({}, None), ({"Make": "RICOH", "Model": "THETA", "ExifImageWidth": 200, "ExifImageLength": 100}, PANO)]
CONFIGS = [{}, {"use_exif_size": False}, {"unknown_camera_models_are_different": True}, {"default_projection_type": "fisheye"}, {"default_focal_prior": 0.6}]


def mkdata(path, blobs, config):
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(os.path.join(path, "images"))
    for n, b in blobs.items():
        with open(os.path.join(path, "images", n), "wb") as f:
            f.write(b)
    with open(os.path.join(path, "config.yaml"), "w") as f:
        f.write("".join("%s: %s\n" % (k, v) for k, v in config.items()))


class DataSet(dataset.DataSet):
    """a dataset whose images have 24 rows and 32 columns"""

    def image_size(self, image):
        return 24, 32


def want_exif(img, name, config):
    """what is in the file, after the configuration"""
    tags, x = img
    w = {"make": tags.get("Make", "unknown"), "model": tags.get("Model", "unknown"), "orientation": 1, "capture_time": 0.0, "gps": {},
         "projection_type": "equirectangular" if x else "perspective", "focal_ratio": tags.get("FocalLengthIn35mmFilm", 0) / 36.0}
    w["width"], w["height"] = (tags["ExifImageWidth"], tags["ExifImageLength"]) if config.get("use_exif_size", True) and "ExifImageWidth" in tags else (32, 24)
    if config.get("unknown_camera_models_are_different") and w["model"] == "unknown":
        w["model"] = "unknown_" + name
    if config.get("default_projection_type"):
        w["projection_type"] = config["default_projection_type"]
    mk, md = w["make"], w["model"]
    w["camera"] = " ".join(["v2", mk, md if mk == "unknown" else md.replace(mk, "").strip(), str(w["width"]), str(w["height"]), w["projection_type"], str(float(w["focal_ratio"]))[:6]]).lower()
    return w


def verify(ck, path, names, imgs, config, over, cams, what):
    data = DataSet(path)
    want = {}
    for n, i in zip(names, imgs):
        w = want_exif(IMGS[i], n, config)
        w.update(over.get(n, {}))
        want[n] = w
        got = data.load_exif(n) if data.exif_exists(n) else None
        ck.expect(got == w, "exif", "%s: EXIF of %s is %r instead of %r" % (what, n, got, w))
    models = data.load_camera_models()
    first = {}
    for n in data.images():
        first.setdefault(want[n]["camera"], want[n])
    cams = cams or {}
    ids = set(first) | ({k for k in cams} if "all" not in cams else set())
    if not ck.expect(set(models) == ids, "models", "%s: camera models %r instead of %r" % (what, sorted(models), sorted(ids))):
        return
    for k in ids:
        o = cams.get("all", cams.get(k))
        if o is not None:
            o = dict(o)
            meta = {"camera": k, "width": o["width"], "height": o["height"]}
            o["focal_x"] = o.get("focal_x", o.get("focal"))
            o["focal_y"] = o.get("focal_y", o.get("focal"))
            same_camera(ck, models[k], o, meta, "override-camera", what)
        else:
            same_camera(ck, models[k], want_camera(first[k], config.get("default_focal_prior", 0.85)), first[k], "dataset-camera", what)


def run(path):
    extract_metadata.run_dataset(DataSet(path))


def do_dataset(ck, i):
    path = os.path.join(ck.scratch, "m")
    names = ["b.jpg", "a.jpg", "c.png"]
    for rest in [r for k in range(0, 3) for r in itertools.product(range(len(IMGS)), repeat=k)]:
        if ck.quick and len(rest) == 2 and rest[0] > rest[1]:
            continue
        imgs = (i,) + rest
        for config in CONFIGS:
            mkdata(path, {n: c27.jpeg(*[IMGS[k][0], None, IMGS[k][1]]) for n, k in zip(names, imgs)}, config)
            what = "images %r, configuration %r" % (imgs, config)
            ck.ev()
            ck.outcome(what)
            run(path)
            verify(ck, path, names[:len(imgs)], imgs, config, {}, None, what)


OVER = [{"gps": {"latitude": 52.5, "longitude": 13.4, "altitude": 27.0, "dop": 5.0}}, {"focal_ratio": 0.9}, {"camera": "mine", "projection_type": "brown", "width": 10, "height": 5},
        {"capture_time": 12.5, "orientation": 6}]
CAMS = [{"all": {"projection_type": "fisheye", "width": 1920, "height": 1080, "focal": 0.5, "k1": 0.1, "k2": -0.01}},
        {"all": {"projection_type": "equirectangular", "width": 2000, "height": 1000}},
        {"v2 canon eos 640 480 perspective 0.5": {"projection_type": "perspective", "width": 640, "height": 480, "focal": 0.77, "k1": 0.01, "k2": 0.02}},
        {"other": {"projection_type": "brown", "width": 64, "height": 48, "focal_x": 0.7, "focal_y": 0.6, "c_x": 0.1, "c_y": 0.2, "k1": 0.1, "k2": 0.2, "k3": 0.3, "p1": 0.4, "p2": 0.5},
         "v2 unknown unknown 32 24 perspective 0.0": {"projection_type": "radial", "width": 32, "height": 24, "focal_x": 0.7, "focal_y": 0.6, "c_x": 0.1, "c_y": 0.2, "k1": 0.1, "k2": 0.2}},
        {"all": {"projection_type": "brown", "width": 64, "height": 48, "focal_x": 0.7, "focal_y": 0.6, "c_x": 0.1, "c_y": 0.2, "k1": 0.1, "k2": 0.2, "k3": 0.3, "p1": 0.4, "p2": 0.5},
         "other": {"projection_type": "perspective", "width": 640, "height": 480, "focal": 0.77, "k1": 0.01, "k2": 0.02}}]


def do_override(ck, j):
    """overrides are given before the first run, or before a second one"""
    path = os.path.join(ck.scratch, "o")
    names = ["b.jpg", "a.jpg", "c.png"]
    sets = [(0, 1, 3), (0, 0, 0), (3, 4, 2), (2, 2, 3)]
    imgs = sets[j % 4]
    overs = [{}] + [{"a.jpg": OVER[a]} for a in range(4)] + [{"b.jpg": OVER[a], "c.png": OVER[b], "missing.jpg": OVER[0]} for a in range(4) for b in range(4)]
    for k, over in enumerate(overs):
        if k % 4 != j // 4:
            continue
        for cams in [None] + CAMS:
            for when in ("before", "rerun", "replaced"):
                mkdata(path, {n: c27.jpeg(*[IMGS[i][0], None, IMGS[i][1]]) for n, i in zip(names, imgs)}, {})
                if when != "before":
                    if when == "replaced":
                        with open(os.path.join(path, "camera_models_overrides.json"), "w") as f:
                            json.dump(CAMS[0], f)
                    run(path)
                f = os.path.join(path, "camera_models_overrides.json")
                if os.path.exists(f):
                    os.remove(f)
                if over:
                    with open(os.path.join(path, "exif_overrides.json"), "w") as f:
                        json.dump(over, f)
                if cams:
                    with open(os.path.join(path, "camera_models_overrides.json"), "w") as f:
                        json.dump(cams, f)
                run(path)
                what = "images %r, EXIF overrides %r, camera overrides %r, %s" % (imgs, over, cams, when)
                ck.ev()
                ck.outcome(what)
                verify(ck, path, names, imgs, {}, over, cams, what)
                run(path)
                verify(ck, path, names, imgs, {}, over, cams, what + ", once more")
