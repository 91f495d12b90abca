"""C43: the viewer shows the reconstructions of its files at their place, whichever files come and in whichever order."""
import itertools
import json
import math
import os
import shutil
import subprocess

import numpy as np

from scene import rod

LEVEL = "model"
RULE = ("all histories of loads and additions of files (of several reconstructions, without reference, broken in the middle, not reconstructions, repeated) compared with a model; all "
        "answers (good, lost, missing, other data) of files fetched at once in all orders and batches; shots of all rotations, orientations and cameras under all references; lists, keys and "
        "addresses; non-trivial: distinct outcomes")
ASSUMPTIONS = ["image names have no '|'", "mapillary-js and gl-matrix are replaced by stand-ins of the functions used", "the modules that draw or build the page are not run"]
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
REFS = [None, (0.0, 0.0, 0.0), (47.1, 6.2, 400.0), (-33.9, 151.2, -20.0), (70.0, -179.9995, 10.0)]
NODE = {}


def node(ck):
    p = NODE.get("p")
    if p is not None and p.poll() is None:
        return p
    d = os.path.join(ck.scratch, "node%d" % os.getpid())
    v = os.path.join(d, "v")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(v)
    shutil.copytree(os.path.join(REPO, "viewer/src"), os.path.join(v, "src"))
    s = os.path.join(HERE, "../viewer_stub")
    for name, to in [("mapillary.module.js", "mapillary-js/dist"), ("vec3.js", "gl-matrix/esm"), ("mat4.js", "gl-matrix/esm"), ("driver.mjs", "..")]:
        t = os.path.join(v, "node_modules", to)
        os.makedirs(os.path.join(v, "node_modules"), exist_ok=True)
        os.makedirs(t, exist_ok=True)
        shutil.copy(os.path.join(s, name), t)
    with open(os.path.join(v, "package.json"), "w") as f:
        f.write('{"type": "module"}')
    NODE["p"] = subprocess.Popen(["node", "driver.mjs"], cwd=v, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return NODE["p"]


def ask(ck, case):
    p = node(ck)
    try:
        p.stdin.write(json.dumps(case) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    if not line:
        return {"raised": "the viewer's code could not be run"}
    return json.loads(line)


def worker_done(ck):
    p = NODE.pop("p", None)
    if p is not None:
        p.stdin.close()
        p.wait(10)


def fine(ck, key, r):
    return ck.expect(not (isinstance(r, dict) and "raised" in r), key, lambda: r["raised"][:300])


# ---------------------------------------------------------------- files
def shot(cam="c", rot=(0, 0, 0), t=(0, 0, 0), orientation=1, **k):
    s = {"camera": cam, "rotation": list(rot), "translation": list(t), "orientation": orientation, "capture_time": 12.5, "gps_dop": 3.0,
         "vertices": [[0, 0, 1]], "faces": [], "scale": 1.0, "covariance": [], "merge_cc": 0}
    s.update(k)
    return s


CAMS = {"c": {"projection_type": "perspective", "width": 640, "height": 480, "focal": 0.9, "k1": 0.1, "k2": -0.02},
        "b": {"projection_type": "brown", "width": 1000, "height": 500, "focal_x": 0.8, "focal_y": 0.8, "c_x": 0, "c_y": 0, "k1": 0.0, "k2": 0.0, "k3": 0, "p1": 0, "p2": 0},
        "f": {"projection_type": "fisheye", "width": 400, "height": 400, "focal": 0.6, "k1": -0.01, "k2": 0.003},
        "s": {"projection_type": "equirectangular", "width": 2000, "height": 1000}}


def cluster(names, ref=REFS[2], npoints=1, broken=False):
    r = {"cameras": {k: dict(v) for k, v in CAMS.items()}, "shots": {n: shot(t=(i, 2.0, -i)) for i, n in enumerate(names)},
         "points": {str(i): {"color": [255, 51, 0], "coordinates": [i, 0, 0]} for i in range(npoints)}}
    if ref:
        r["reference_lla"] = dict(zip(("latitude", "longitude", "altitude"), ref))
    if broken:
        r["shots"]["z"] = shot(cam="gone")
    return r


FILES = [
    [cluster(["a.jpg", "b.jpg"], npoints=3)],
    [cluster(["a.jpg"], REFS[3], 2), cluster(["d", "e.jpg", "0"], None, 0)],
    [cluster(["q q.jpg"], REFS[4])],
    [cluster(["a.jpg"]), cluster(["g"], broken=True)],   # fails in the middle
    {"cameras": {}},                                      # something else
    None,
    [],
    [{"shots": {}}],
    [{k: v for k, v in cluster(["p", "q"]).items() if k != "points"}],
]
GOOD = (0, 1, 2, 8)
REFUSED_ADD = (3, 4, 5)  # cannot be read; the others hold no reconstruction at all


# ---------------------------------------------------------------- geometry
A, E2 = 6378137.0, 0.00669437999014


def ecef(lat, lon, alt):
    a, o = math.radians(lat), math.radians(lon)
    n = A / math.sqrt(1 - E2 * math.sin(a) ** 2)
    return np.array([(n + alt) * math.cos(a) * math.cos(o), (n + alt) * math.cos(a) * math.sin(o), (n * (1 - E2) + alt) * math.sin(a)])


def where(enu, ref):
    """ECEF position of a point in the frame of the reference."""
    lat, lon, alt = ref or (0, 0, 0)
    a, o = math.radians(lat), math.radians(lon)
    e = np.array([-math.sin(o), math.cos(o), 0])
    n = np.array([-math.sin(a) * math.cos(o), -math.sin(a) * math.sin(o), math.cos(a)])
    u = np.array([math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a)])
    return ecef(lat, lon, alt) + enu[0] * e + enu[1] * n + enu[2] * u


def near(lat, lng, alt, enu, ref, size):
    return float(np.linalg.norm(ecef(lat, lng, alt) - where(enu, ref))) < 1e-3 + 2e-6 * size


# ---------------------------------------------------------------- cases
def orders(n):
    """Ordered partitions of range(n), each batch in every order."""
    if n == 0:
        return [[]]
    out = []
    for p in itertools.permutations(range(n)):
        for cuts in itertools.product([0, 1], repeat=n - 1):
            o = [[p[0]]]
            for x, cut in zip(p[1:], cuts):
                if cut:
                    o.append([x])
                else:
                    o[-1].append(x)
            out.append(o)
    return out


def cases(ck):
    out = []
    steps = [(op, f) for op in ("load", "add") for f in range(len(FILES))]
    depth = 3 if ck.quick else 4
    for a in steps:
        for b in steps:
            out.append(["history", depth, [a, b]])
    for ref in range(len(REFS)):
        for o in (None, 1, 3, 6, 8):
            for k in range(4 if ck.quick else 8):
                out.append(["convert", ref, o, k])
    for n in (1, 2, 3) if ck.quick else (1, 2, 3, 4):
        for ans in itertools.product(["ok", "lost", "missing", "other"], repeat=n):
            if n < 4 or "ok" in ans:
                out.append(["fetched", list(ans)])
    out += [["util"], ["paths"], ["pictures"]]
    for a in range(len(LISTOPS)):
        out.append(["list", a, 4 if ck.quick else 6])
    for k in range(len(KEYS)):
        out.append(["keys", k, 3 if ck.quick else 4])
    out += [["stats", n] for n in range(4)]
    return out


def check(ck, c):
    globals()["run_" + c[0]](ck, *c[1:])


def jsdata(f):
    return json.loads(json.dumps(FILES[f]))


def shown(ck, key, end, clusters, path="image"):
    """What is shown is exactly these clusters: (id, file number, cluster)."""
    ids = {"%s|%s" % (cid, n): (cid, r, n) for cid, f, r in clusters for n in r["shots"]}
    ck.expect(sorted(i for i, _ in end["images"]) == sorted(ids), key, lambda: "images %s" % end["images"])
    ck.expect(sorted(i for i, _ in end["spatial"]) == sorted(ids) and all(a == b for a, b in end["spatial"]), key, lambda: "details of %s" % end["spatial"])
    ck.expect(sorted(end["meshes"]) == sorted(ids) == sorted(end["sequences"]) and all(m for m in end["meshes"].values()), key, lambda: "meshes of %s" % sorted(end["meshes"]))
    ck.expect(sorted(i for c in end["cells"].values() for i in c) == sorted(ids), key, lambda: "cells %s" % end["cells"])
    ck.expect(sorted(end["clusters"]) == sorted(c for c, _, _ in clusters) == sorted(end["raw"]), key, lambda: "clusters %s, raw %s" % (sorted(end["clusters"]), sorted(end["raw"])))
    for i, im in end["images"]:
        cid, r, n = ids.get(i, (None, None, None))
        if cid is None:
            continue
        ck.expect(im["id"] == i and im["cluster"] == {"id": cid, "url": cid}, key, lambda: "%s is %s of %s" % (i, im["id"], im["cluster"]))
        ck.expect(end["sequences"][i] == {"id": im["sequence"]["id"], "image_ids": [i]}, key, lambda: "sequence of %s: %s" % (i, end["sequences"][i]))
        cells = [c for c, v in end["cells"].items() if i in v]
        g = im["geometry"]
        ck.expect(cells == ["%d:%d" % (math.floor(g["lng"] * 2000), math.floor(g["lat"] * 2000))], key, lambda: "%s at %s in cells %s" % (i, g, cells))
    ck.expect(all(sorted(x) == sorted(ids) for x in end["some"]), key, lambda: "asked for them and others, gives %s" % end["some"])
    for cid, f, r in clusters:
        got = end["clusters"].get(cid)
        if got is None:
            continue
        ref = r.get("reference_lla") or {"latitude": 0, "longitude": 0, "altitude": 0}
        ck.expect(got["id"] == cid and got["reference"] == {"lat": ref["latitude"], "lng": ref["longitude"], "alt": ref["altitude"]}, key, lambda: "reference of %s: %s" % (cid, got["reference"]))
        pts = r.get("points", {})
        ok = sorted(got["points"]) == sorted(pts)
        ok = ok and all(np.allclose(got["points"][k]["color"], np.array(pts[k]["color"]) / 255) and got["points"][k]["coordinates"] == pts[k]["coordinates"] for k in pts)
        ck.expect(ok, key, lambda: "points of %s: %s" % (cid, got["points"]))
        ck.expect(end["raw"][cid]["id"] == cid and sorted(end["raw"][cid]["shots"]) == sorted(r["shots"]), key, lambda: "raw data of %s: %s" % (cid, end["raw"][cid]))
        if f is not None:
            ck.expect(end["raw"][cid]["url"] == f[0] and end["raw"][cid]["name"] == f[1], key, lambda: "%s comes from %s" % (cid, end["raw"][cid]))


def run_history(ck, depth, head):
    steps = [(op, f) for op in ("load", "add") for f in range(len(FILES))]
    data = [jsdata(f) for f in range(len(FILES))]
    for tail in itertools.product(steps, repeat=depth - 2):
        ops = [tuple(x) for x in head] + list(tail)
        key = "history %s" % " ".join("%s%d" % o for o in ops)
        r = ask(ck, {"run": "history", "imagePath": "image", "files": data, "ops": ops})
        ck.ev(len(ops))
        if not fine(ck, key, r):
            continue
        model = []
        for (op, f), (res, images, clusters, events) in zip(ops, r["steps"]):
            loaded = bool(model)
            new = []
            want, ev = "ok", []
            if op == "load":
                if loaded or f not in GOOD:
                    want = "refused"
                else:
                    new = [("cluster_%d" % i, f, x) for i, x in enumerate(data[f])]
                    ev = ["load"]
            else:
                if not loaded:
                    want = "refused"
                elif f in REFUSED_ADD:
                    want = "refused"
                elif f in GOOD:
                    new = [("cluster_%d" % (len(model) + i), f, x) for i, x in enumerate(data[f])]
                    ev = ["opensfm"]
                else:
                    want = ev = None  # nothing to show: told or not, nothing changes
            if want is not None:
                ck.expect(res == want, key, lambda: "%s%d: %s, expected %s" % (op, f, res, want))
            model += new
            ids = sorted("%s|%s" % (c, n) for c, _, x in model for n in x["shots"])
            ck.expect(images == ids, key, lambda: "after %s%d shows %s, expected %s" % (op, f, images, ids))
            if want is not None:
                ck.expect(clusters == sorted(c for c, _, _ in model), key, lambda: "after %s%d clusters %s" % (op, f, clusters))
                names = [e if isinstance(e, str) else e[0] for e in events]
                ck.expect(sorted(n for n in names if n != "create") == ev and names.count("create") == (ev == ["opensfm"]), key, lambda: "%s%d told %s" % (op, f, events))
                for e in events:
                    if e[0] == "opensfm":
                        ck.expect(sorted(e[1]) == sorted(e[2]) == sorted(c for c, _, _ in new), key, lambda: "told of clusters %s" % e)
                    if e[0] == "create":
                        cells = {cell for cell, v in r["end"]["cells"].items() if any(i.split("|")[0] in {c for c, _, _ in new} for i in v)}
                        ck.expect(sorted(e[1]) == sorted(cells), key, lambda: "told of cells %s, expected %s" % (e[1], sorted(cells)))
            else:
                break
            ck.state(tuple(c for c, _, _ in model) + tuple(f for _, f, _ in model))
            ck.transition()
        else:
            ck.expect(r["end"]["loaded"] == bool(model) and not r["end"]["loading"], key, lambda: "loaded %s loading %s" % (r["end"]["loaded"], r["end"]["loading"]))
            shown(ck, key, r["end"], [(c, ("u%d" % f, "n%d" % f), x) for c, f, x in model])
            ck.outcome([s[0] for s in r["steps"]] + [s[1] for s in r["steps"]])


AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 1, 0), (1, 2, -2), (0.3, -0.2, 0.9)]
ANGLES = [1e-4, 0.3, 1.0, math.pi / 2, 2.5, math.pi - 1e-3, math.pi]
TRANS = [(0, 0, 0), (1, 2, 3), (-20, 5, 0.5), (400, -900, 30), (0.01, 0, -0.02)]


def run_convert(ck, ref, orientation, k):
    rots = [(0, 0, 0)] + [tuple(np.array(a) / np.linalg.norm(a) * x) for a in AXES for x in ANGLES]
    shots = {}
    n = 0
    for i, rot in enumerate(rots):
        for j, t in enumerate(TRANS):
            n += 1
            if (i + j) % (2 if ck.quick else 1) != 0:
                continue
            s = shot(["c", "b", "f", "s"][(i + j + k) % 4], rot, t, orientation)
            if orientation is None:
                del s["orientation"]
            m = (n + k) % 8
            if m & 1:
                s["gps_position"] = [5.0 * j - 3, 7.0 - i, 0.25 * i]
            s["scale"] = [1.0, 2.5][m >> 1 & 1]
            if m & 4:
                s["merge_cc"] = n % 3
            else:
                del s["merge_cc"]
            s["capture_time"] = 1e9 + n
            s["vertices"] = [[1, 2, 3], [-4.0, 0.5, n], [0, 0, 0]][:1 + m % 3]
            s["faces"] = [[0, 1, 2], [2, 1, 0], [1, 0, 2]][:m % 4]
            shots[["%d.jpg", "a b %d.png", "ä%d", "%d"][m % 4] % n] = s
    r = cluster([], REFS[ref])
    r["shots"] = shots
    path = ["image", "data/berlin/image", "other/images/", "image"][k % 4]
    key = "convert ref %s orientation %s variant %d" % (REFS[ref], orientation, k)
    got = ask(ck, {"run": "history", "imagePath": path, "files": [[r]], "ops": [["load", 0]]})
    if not fine(ck, key, got):
        return
    shown(ck, key, got["end"], [("cluster_0", None, r)])
    ims = dict(got["end"]["images"])
    for name, s in shots.items():
        im = ims.get("cluster_0|" + name)
        if im is None or im.get("computed_geometry") is None:
            continue
        kk = "%s: rotation %s translation %s" % (key, s["rotation"], s["translation"])
        R, t = rod(s["rotation"]), np.array(s["translation"], float)
        C = -R.T @ t
        size = float(np.linalg.norm(t))
        g = im["computed_geometry"]
        try:
            ok = near(g["lat"], g["lng"], im["computed_altitude"], C, REFS[ref], size)
        except TypeError:
            ok = False
        ck.expect(ok, kk, lambda: "is at %s %s, expected the optical center %s" % (g, im["computed_altitude"], C))
        g = im["geometry"]
        o = s.get("gps_position", C)
        try:
            ok = near(g["lat"], g["lng"], im["altitude"], o, REFS[ref], size)
        except TypeError:
            ok = False
        ck.expect(ok, kk, lambda: "originally at %s %s, expected %s" % (g, im["altitude"], o))
        v = R[2]
        if math.hypot(v[0], v[1]) > 1e-2:
            want = math.degrees(math.atan2(v[0], v[1]))
            for f in ("compass_angle", "computed_compass_angle"):
                try:
                    ok = 0 <= im[f] <= 360 and abs((im[f] - want + 180) % 360 - 180) < 0.02
                except TypeError:
                    ok = False
                ck.expect(ok, kk, lambda: "%s %s, expected %s" % (f, im[f], want))
        cam = CAMS[s["camera"]]
        ck.expect(im["camera_parameters"] == [cam.get(x) for x in ("focal", "k1", "k2")], kk, lambda: "camera parameters %s of %s" % (im["camera_parameters"], cam))
        ck.expect(im["camera_type"] == ("spherical" if s["camera"] == "s" else cam["projection_type"]), kk, lambda: "camera type %s" % im["camera_type"])
        ck.expect((im["width"], im["height"]) == (cam["width"], cam["height"]), kk, lambda: "size %s %s" % (im["width"], im["height"]))
        ck.expect(im["captured_at"] == s["capture_time"] and im["atomic_scale"] == s["scale"] and im["computed_rotation"] == s["rotation"] and im.get("exif_orientation") == s.get("orientation"), kk,
                  lambda: "time %s scale %s rotation %s orientation %s" % (im["captured_at"], im["atomic_scale"], im["computed_rotation"], im.get("exif_orientation")))
        ck.expect(im["merge_id"] == (str(s["merge_cc"]) if "merge_cc" in s else None), kk, lambda: "connected component %s" % im["merge_id"])
        from urllib.parse import unquote
        url = "http://here:1234/" + path.rstrip("/") + "/" + name
        ck.expect(unquote(im["thumb"]["url"]) == url, kk, lambda: "picture at %s, expected %s" % (im["thumb"]["url"], url))
        mesh = got["end"]["meshes"].get(im["mesh"]["url"])
        want = [x for p in s["vertices"] for x in s["scale"] * (R @ np.array(p, float) + t)]
        ok = mesh is not None and len(mesh["vertices"]) == len(want) and np.allclose(np.array(mesh["vertices"], float), want, rtol=1e-5, atol=2e-5 * (1 + size + n))
        ck.expect(bool(ok), kk, lambda: "vertices %s, expected %s" % (mesh, want))
        ck.expect(mesh is not None and mesh["faces"] == [x for f in s["faces"] for x in f], kk, lambda: "faces %s" % mesh)
        ck.ev(10)
        ck.outcome((s["rotation"], s["translation"], s["camera"], REFS[ref]))


def run_fetched(ck, answer):
    files = [jsdata([0, 1, 2, 0][i]) if a != "other" else [{"what": 1}, {}, [], None][i] for i, a in enumerate(answer)]
    good = [i for i, a in enumerate(answer) if a == "ok"]
    for order in orders(len(answer)):
        key = "fetched %s answered %s" % (answer, order)
        r = ask(ck, {"run": "fetched", "files": files, "order": order, "answer": answer, "spare": jsdata(1)})
        ck.ev(len(answer))
        if not fine(ck, key, r):
            continue
        end = r["end"]
        ck.expect(r["busy"] == "refused" and r["idle"] == [0, 0], key, lambda: "loading another file meanwhile is %s and shows %s" % (r["busy"], r["idle"]))
        if not good:
            ck.expect(r["late"] == ["ok", 2], key, lambda: "nothing came, and then choosing a file gives %s" % r["late"])
            ck.expect(r["early"] == "failed" and not r["log"], key, lambda: "told %s though nothing was loaded: %s" % (r["log"], r["early"]))
            continue
        if not ck.expect(end is not None, key, "nothing can be shown"):
            continue
        ck.expect(r["late"] == ["refused", len(end["clusters"])], key, lambda: "loading a second time gives %s" % r["late"])
        ck.expect(end["loaded"] and not end["loading"], key, lambda: "loaded %s loading %s" % (end["loaded"], end["loading"]))
        # the files are numbered as they arrive
        cl, k = [], 0
        for batch in order:
            for i in batch:
                if i in good:
                    for x in files[i]:
                        u = "http://here:1234/r%d.json" % i
                        cl.append(("cluster_%d" % k, (u, u), x))
                        k += 1
        # within a batch the numbering is free: match on the origin
        raw = end["raw"]
        assigned, left = [], list(cl)
        for cid in sorted(raw, key=lambda c: int(c.split("_")[1])):
            for x in left:
                if x[1][0] == raw[cid]["url"] and sorted(x[2]["shots"]) == sorted(raw[cid]["shots"]):
                    assigned.append((cid, x[1], x[2]))
                    left.remove(x)
                    break
        ck.expect(not left and len(assigned) == len(raw), key, lambda: "shows %s" % {c: (v["url"], v["shots"]) for c, v in raw.items()})
        shown(ck, key, end, assigned)
        known = (r["first"] or []) + r["ui"]
        ck.expect(sorted(known) == sorted(raw), key, lambda: "the page knows %s at first, then %s, of %s" % (r["first"], r["ui"], sorted(raw)))
        ck.expect(isinstance(r["early"], int) and r["early"] > 0, key, lambda: "those who waited got %s" % r["early"])
        ck.expect(r["before"] == [False, True], key, lambda: "loaded, loading = %s before any answer" % r["before"])
        ck.state((tuple(answer), str(order)))
        ck.outcome(str(sorted((c, v["url"]) for c, v in raw.items())))


def run_util(ck):
    pairs = [("cluster_%d" % i, n) for i in (0, 1, 12) for n in ("a.jpg", "b c.png", "é", "x_y/z.jpg", "0")]
    pix = [(x, y, w, h) for w, h in ((100, 50), (640, 480)) for x in (0, w / 2, w, 10) for y in (0, h / 2, h, 7)]
    good = [[{"cameras": {}, "shots": {}}], [{"cameras": {"a": 1}, "shots": {"b": 2}, "points": {}}, {}]]
    bad = [None, {}, [], "text", 3, [{}], [{"cameras": {}}], [{"shots": {}}], {"0": {"cameras": {}, "shots": {}}}]
    r = ask(ck, {"run": "util", "pairs": pairs, "hashes": [""], "data": good + bad, "pixels": pix})
    if not fine(ck, "util", r):
        return
    for (a, b), (u, v), (x, y) in zip(pairs, r["ids"], r["back"]):
        ck.expect(u == v and (x, y) == (a, b), "ids", lambda: "%s of %s became %s, %s and %s, %s" % (b, a, u, v, x, y))
    ck.expect(len({u for u, _ in r["ids"]}) == len(pairs), "ids", "not unique")
    ck.expect(r["types"] == [True] * len(good) + [False] * len(bad), "types", lambda: "reconstructions: %s" % r["types"])
    for (x, y, w, h), (a, b) in zip(pix, r["coords"]):
        ck.expect(abs(a - (2 * x / w - 1)) < 1e-9 and abs(b - (1 - 2 * y / h)) < 1e-9, "viewport", lambda: "%s -> %s" % ((x, y, w, h), (a, b)))
    ck.ev(len(pairs) + len(good + bad) + len(pix))


def run_paths(ck):
    """Addresses: every combination of parameters of the page."""
    from urllib.parse import quote
    files = [None, "rec.json", "data/berlin/reconstruction.json", "data/x/reconstruction.meshed", "d.json/r", "/data/a b/r.json", ["r1.json", "d/r2.json"], ["a", "b/c", "d"]]
    images = [None, "image", "some/where"]
    img = [None, "im 1.jpg", "a&b=c"]
    for form in (0, 1, 2):
        cs, hs = [], []
        for f, i, g in itertools.product(files, images, img):
            enc = [lambda s: quote(s, safe="/,"), lambda s: quote(s, safe=""), lambda s: quote(s, safe="/,").replace("%20", "+")][form]
            parts = []
            if f is not None:
                parts.append("file=" + enc(",".join(f) if isinstance(f, list) else f))
            if i is not None:
                parts.append("image=" + enc(i))
            if g is not None:
                parts.append("img=" + enc(g))
            for order in itertools.permutations(parts):
                hs.append("#" + "&".join(order) if parts else "")
                cs.append((f, i, g))
        r = ask(ck, {"run": "util", "pairs": [], "hashes": hs, "data": [], "pixels": []})
        if not fine(ck, "addresses", r):
            continue
        for (f, i, g), h, p, o in zip(cs, hs, r["hash"], r["options"]):
            want = {k: v for k, v in (("file", f), ("image", i), ("img", g)) if v is not None}
            ck.expect(p == want, "address %s" % h, lambda: "means %s, expected %s" % (p, want))
            recs = None if f is None else f if isinstance(f, list) else [f]
            base = i if i is not None else (f.rsplit("/", 1)[0] + "/image" if isinstance(f, str) and "/" in f else "image")
            ck.expect(o["endpoint"] == "http://here:1234" and o["reconstructionPaths"] == recs and o["imagePath"] == base, "address %s" % h,
                      lambda: "options %s, expected files %s and images %s" % (o, recs, base))
            ck.ev()
            ck.outcome((h, str(o)))


def run_pictures(ck):
    asks = [[i, a] for i in (False, True) for a in ("ok", "lost")]
    r = ask(ck, {"run": "pictures", "file": jsdata(0), "asks": asks})
    if not fine(ck, "pictures", r):
        return
    for (inv, a), got in zip(asks, r):
        urls = ["http://here:1234/image/%s.jpg" % x for x in "ab"]
        ok = all(g != "failed" and g[0] > 0 and (g[1] == u) == (a == "ok" and not inv) for g, u in zip(got, urls))
        ck.ev()
        ck.expect(ok, "pictures", lambda: "pictures (%s, invented: %s) are %s" % (a, inv, got))
        ck.outcome(str(got))


LISTOPS = [("add", ["c%d" % i for i in range(12)]), ("add", ["x"]), ("add", ["y", "z"]), ("add", ["w"]), ("all", None), ("one", "x"), ("one", "z")]


def run_list(ck, first, depth):
    for tail in itertools.product(range(len(LISTOPS)), repeat=depth - 1):
        ops = [LISTOPS[first]] + [LISTOPS[i] for i in tail]
        r = ask(ck, {"run": "list", "ops": ops})
        key = "list %s" % ops
        if not fine(ck, key, r):
            continue
        m = {}
        ok = r[0][1] == "Show all"
        for (op, arg), (active, label, bad) in zip(ops, r[1:]):
            told = True
            if op == "add":
                if any(a in m for a in arg):
                    ok = ok and bad
                    break
                m.update({a: True for a in arg})
            elif op == "all":
                to = not (m and all(m.values()))
                m = {a: to for a in m}
            elif arg in m:
                m[arg] = not m[arg]
            else:
                told = False
            ck.ev()
            want = [a for a in m if m[a]]
            lab = "Hide all" if m and all(m.values()) else "Show all"
            if not ck.expect(not bad and (active == want if told else active is None) and label == lab, key, lambda: "after %s %s: active %s label %s, expected %s %s" % (op, arg, active, label, want, lab)):
                break
            ck.state(tuple(sorted(m.items())))
            ck.transition()
        ck.expect(ok, key, "the list starts with %s" % r[0])
        ck.outcome(str(r))


TOGGLES = dict(c="axesVisible", y="gridVisible", m="basemapVisible", d="cellsVisible", e="commandsVisible", r="imagesVisible", f="pointsVisible", t="statsVisible", v="thumbnailVisible")
SIZES = dict(q=("pointSize", 0.9), w=("pointSize", 1.1), a=("cameraSize", 0.9), s=("cameraSize", 1.1), z=("infoSize", 0.9), x=("infoSize", 1.1))
MODES = {"1": ("cameraVisualizationMode", ["Hidden", "Homogeneous", "Cluster", "ConnectedComponent", "Sequence"], {"Hidden": 0, "Homogeneous": 1, "Cluster": 2, "ConnectedComponent": 3, "Sequence": 4}),
         "2": ("originalPositionMode", ["Hidden", "Flat", "Altitude"], {"Hidden": 0, "Altitude": 1, "Flat": 2}), "3": ("cameraControlMode", ["orbit", "earth", "street"], None)}
KEYS = [(k, "") for k in list(TOGGLES) + list(SIZES) + list(MODES) + ["l", "p", "u"]] + [("c", "ctrl"), ("q", "shift"), ("1", "alt"), ("l", "meta")]


def run_keys(ck, first, depth):
    names = sorted(set(TOGGLES.values()) | {v[0] for v in SIZES.values()} | {v[0] for v in MODES.values()} | {"datToggle"})
    rest = list(itertools.product(KEYS, repeat=2))
    if ck.quick:
        rest = rest[first % 3::3]
    seqs = [[KEYS[first], *t] for t in rest]
    if depth == 4:
        seqs = [s + [k] for s in seqs for k in KEYS[first % 5::5]]
    # and each key held down
    seqs.append([KEYS[first]] * 30)
    for n, ops in enumerate(seqs):
        conf = {v: (n + i) % 2 == 0 for i, v in enumerate(sorted(TOGGLES.values()))}
        conf.update(pointSize=0.1, cameraSize=[0.5, 0.01, 1.0][n % 3], infoSize=0.2, cameraVisualizationMode=["Homogeneous", "Sequence", "Hidden"][n % 3], originalPositionMode=["Hidden", "Flat", "Altitude"][n // 3 % 3],
                    cameraControlMode=["street", "orbit", "earth"][n % 3])
        start = dict(conf)
        r = ask(ck, {"run": "keys", "names": names, "config": conf, "ops": ops})
        key = "keys %s from %s" % (" ".join(m + k for k, m in ops), start)
        if not fine(ck, key, r):
            continue
        own = 0
        for (k, mod), got in zip(ops, r["steps"]):
            want = None
            if mod or k == "u":
                want = []
            elif k == "p":
                own += 1
                want = []
            elif k == "l":
                want = [["dattoggle", None]]
            elif k in TOGGLES:
                conf[TOGGLES[k]] = not conf[TOGGLES[k]]
                want = [[TOGGLES[k].lower(), conf[TOGGLES[k]]]]
            elif k in SIZES:
                v, f = SIZES[k]
                conf[v] = min(1, max(0.01, conf[v] * f))
                want = [[v.lower(), conf[v]]]
            else:
                v, cyc, num = MODES[k]
                conf[v] = cyc[(cyc.index(conf[v]) + 1) % len(cyc)]
                want = [[v.lower(), num[conf[v]] if num else conf[v]]]
            same = len(got) == len(want) and all(a[0] == b[0] and (abs(a[1] - b[1]) < 1e-9 if isinstance(b[1], float) else a[1] == b[1]) for a, b in zip(got, want))
            ck.ev()
            ck.transition()
            if not ck.expect(same, key, lambda: "%s%s told %s, expected %s" % (mod, k, got, want)):
                break
        ck.expect(r["own"] == own and r["twice"], key, lambda: "own command called %s times, expected %s; same key twice %s" % (r["own"], own, r["twice"]))
        ck.expect(all(abs(r["config"][v] - conf[v]) < 1e-9 if isinstance(conf[v], float) else r["config"][v] == conf[v] for v in conf), key, lambda: "settings %s, expected %s" % (r["config"], conf))
        ck.state(str(sorted(conf.items())))
        ck.outcome(str(r["steps"]))


def run_stats(ck, n):
    """Totals over the files told about, in any split."""
    recs = [{"id": "cluster_%d" % i, "file": {"url": "u%d" % i}, "cluster": dict({"shots": {str(j): 1 for j in range(i)}}, **({} if i == 3 else {"points": {str(j): 1 for j in range(3 * i + 1)}}))} for i in range(4)]
    for perm in itertools.permutations(recs, n):
        for cuts in itertools.product([0, 1], repeat=max(0, n - 1)):
            adds = []
            for i, x in enumerate(perm):
                if i == 0 or cuts[i - 1]:
                    adds.append({})
                adds[-1][x["id"]] = x
            r = ask(ck, {"run": "stats", "adds": adds})
            key = "stats %s" % [sorted(a) for a in adds]
            if not fine(ck, key, r):
                continue
            ns, np_ = sum(len(x["cluster"]["shots"]) for x in perm), sum(len(x["cluster"].get("points", {})) for x in perm)
            ck.expect("Total: %d images, %d points" % (ns, np_) in r, key, lambda: "shows %s" % r)
            for x in perm:
                w = "%s: %d images, %d points (%s)" % (x["id"], len(x["cluster"]["shots"]), len(x["cluster"].get("points", {})), x["file"]["url"])
                ck.expect(r.count(w) == 1, key, lambda: "shows %s, expected %s" % (r, w))
            ck.expect(len(r) == 2 + n, key, lambda: "shows %s" % r)
            ck.ev()
            ck.outcome(str(r))
