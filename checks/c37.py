"""C37: the viewer and the annotation tool serve the files of their dataset exactly, and nothing else."""
import importlib.util
import io
import itertools
import json
import os
import shutil
import sys
import types

import boot
import c31
import numpy as np
from PIL import Image

LEVEL = "exploration"
RULE = ("all request paths of up to the bound segments over an alphabet of names of files and folders in and outside of the "
        "dataset, dots, empty and encoded segments; all small datasets of reconstruction-like names; image modes and sizes; "
        "non-trivial: distinct answers")
ASSUMPTIONS = ["links inside of the dataset are followed, as those of submodels have to be",
               "file names do not need quoting in a URL", "a stand-in for the package magic"]
SEG = ["..", ".", "", "images", "sub", "a.jpg", "reconstruction.json", "secret.txt", "link.jpg", "%2e%2e", "ds", "ds2", "..a", "a b.jpg"]


def server():
    spec = importlib.util.spec_from_file_location("viewer_server", os.path.join(boot.REPO, "viewer/server.py"))
    m = importlib.util.module_from_spec(spec)
    sys.modules["viewer_server"] = m
    spec.loader.exec_module(m)
    return m


def start(m, argv):
    """main() with these arguments, without a socket"""
    m.app.run = lambda *a, **k: None
    old, sys.argv = sys.argv, ["server.py"] + argv
    try:
        m.main()
    finally:
        sys.argv = old
    return m.app


def tree(root):
    files = {"ds/reconstruction.json": b"[]", "ds/images/a.jpg": b"image a", "ds/images/a b.jpg": b"image b", "ds/images/..a": b"dots",
             "ds/sub/reconstruction.json": b"[2]", "ds/sub/a.jpg": b"sub a", "ds/images/sub/a.jpg": b"deep", "ds/secret.txt": b"of the dataset",
             "secret.txt": b"OUTSIDE 1", "a.jpg": b"OUTSIDE 2", "ds2/secret.txt": b"OUTSIDE 3", "reconstruction.json": b"OUTSIDE 4",
             "images/a.jpg": b"OUTSIDE 5", "ds2/images/a.jpg": b"OUTSIDE 6"}
    shutil.rmtree(root, ignore_errors=True)
    for k, v in files.items():
        os.makedirs(os.path.dirname(os.path.join(root, k)), exist_ok=True)
        with open(os.path.join(root, k), "wb") as f:
            f.write(v)
    os.makedirs(root + "/store")
    with open(root + "/store/x", "wb") as f:
        f.write(b"linked")
    os.symlink("../../store/x", root + "/ds/images/link.jpg")
    files["ds/images/link.jpg"] = b"linked"
    return {k[3:]: v for k, v in files.items() if k.startswith("ds/")}


def get(app, path):
    """Sends the path as it is, not as a client would tidy it up."""
    from urllib.parse import unquote
    status, body = [], b""
    env = {"REQUEST_METHOD": "GET", "SCRIPT_NAME": "", "PATH_INFO": unquote(path), "QUERY_STRING": "", "SERVER_NAME": "x", "SERVER_PORT": "80",
           "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.version": (1, 0), "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(), "wsgi.errors": io.StringIO(),
           "wsgi.multithread": False, "wsgi.multiprocess": False, "wsgi.run_once": False, "REQUEST_URI": path}
    it = app(env, lambda s, h, e=None: status.append((int(s.split()[0]), dict(h))))
    try:
        body = b"".join(it)
    finally:
        if hasattr(it, "close"):
            it.close()
    return status[0][0], body


def judge(ck, app, prefix, base, segs, inside):
    path = prefix + "/".join(segs)
    ck.ev()
    try:
        st, body = get(app, path)
    except Exception as e:
        ck.fail("error", "GET %s raises %s: %s" % (path, type(e).__name__, e))
        return
    from urllib.parse import unquote
    flat = [s for g in segs for s in unquote(g).split("/")]
    rel = os.path.normpath("/".join([base] + flat if base else flat))
    ck.expect(st < 500, "error", "GET %s: status %d" % (path, st))
    ck.expect(not (b"OUTSIDE" in body), "outside", "GET %s sends a file from outside of the dataset: %r" % (path, body[:80]))
    if st == 200:
        ck.expect(inside.get(rel) == body, "wrong", "GET %s sends %r, the file has %r" % (path, body[:60], inside.get(rel)))
    plain = all(s not in ("", ".", "..") for s in flat)
    if plain:
        ok = rel in inside and not (prefix == "/image/" and len(segs) > 1)
        ck.expect((st == 200) == ok, "served", "GET %s: status %d, the dataset %s this file" % (path, st, "has" if ok else "does not have"))
    ck.outcome((st, body[:40] if st == 200 else b"", prefix, plain))


def cases(ck):
    n = 4 if ck.quick else 5
    out = [["paths", kind, s, n] for kind in ("data", "image", "tool") for s in SEG]
    out += [["items", n] for n in range(4)] + [["nodata"], ["modes"]]
    return out


def paths(ck, kind, first, n):
    root = os.path.join(ck.scratch, "t")
    inside = tree(root)
    if kind == "tool":
        app, prefixes, base = tool(root + "/ds"), ["/sequence_view_1/image/0/"], "images"
    else:
        m = server()
        app = start(m, ["-d", root + "/ds"])
        prefixes, base = ["/%s/" % kind], "images" if kind == "image" else ""
    cwd = os.getcwd()
    os.chdir(root)
    try:
        for k in range(n):
            for rest in itertools.product(SEG, repeat=k):
                for p in prefixes:
                    judge(ck, app, p, base, (first,) + rest, inside)
    finally:
        os.chdir(cwd)


def tool(path):
    c31.stub()
    sys.modules["magic"].Magic = type("Magic", (), {"__init__": lambda self, **k: None, "from_file": lambda self, f: "image/jpeg"})
    from flask import Flask
    from mapillary.opensfm.annotation_gui_gcp.lib import GUI, image_manager
    image_manager.Magic = sys.modules["magic"].Magic
    from mapillary.opensfm.annotation_gui_gcp.lib.gcp_manager import GroundControlPointManager
    app = Flask("tool")
    with open(os.path.join(path, "ground_control_points.json"), "w") as f:
        f.write('{"points": []}')
    GUI.Gui(app, GroundControlPointManager(path), image_manager.ImageManager({"s": ["a.jpg"]}, path))
    return app


NAMES = ["reconstruction.json", "reconstruction.meshed.json", "a/reconstruction.json", "b/c/undistorted_reconstruction.json", "camera_models.json",
         "reconstruction.json.bak", "reports/features.json", "images/reconstruction.jpg", "aligned_reconstructions.json", "recon.json"]


def items(ck, n):
    root = os.path.join(ck.scratch, "i")
    for sel in itertools.combinations(NAMES, n):
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        for k in sel:
            os.makedirs(os.path.dirname(os.path.join(root, k)), exist_ok=True)
            with open(os.path.join(root, k), "w") as f:
                f.write(k)
        for rel in (False, True):
            ck.ev()
            m = server()
            cwd = os.getcwd()
            os.chdir(ck.scratch)
            try:
                app = start(m, ["-d", "i" if rel else root])
            finally:
                os.chdir(cwd)
            st, body = get(app, "/items")
            got = json.loads(body)["items"]
            want = sorted(k for k in sel if "reconstruction" in k and k.endswith(".json"))
            ck.expect(st == 200 and [i["name"] for i in got] == want, "items", "dataset with %r lists %r" % (sel, got))
            ck.outcome(repr(want))
            for i in got:
                for url in i["url"]:
                    st, body = get(app, "/" + url)
                    ck.expect(st == 200 and body.decode() == i["name"], "items-url", "item %r gives %r" % (i, (st, body)))


def nodata(ck):
    m = server()
    app = start(m, [])
    ck.ev(4)
    st, body = get(app, "/items")
    ck.expect(st == 200 and json.loads(body) == {"items": []}, "nodata", "without dataset: items %r" % body)
    for p in ("/data/reconstruction.json", "/image/a.jpg", "/data//etc/hostname"):
        try:
            st, body = get(app, p)
            ck.expect(st in (404, 308), "nodata", "without dataset: GET %s gives %d" % (p, st))
        except Exception as e:
            ck.fail("nodata", "without dataset: GET %s raises %s" % (p, e))
    for p, f in (("/", "index.html"), ("/src/ui/OpensfmViewer.js", "src/ui/OpensfmViewer.js"), ("/index.html", "index.html")):
        ck.ev()
        st, body = get(app, p)
        ck.expect(st == 200 and body == open(os.path.join(boot.REPO, "viewer", f), "rb").read(), "static", "GET %s gives %d" % (p, st))
        ck.outcome(p)
    st, body = get(app, "/../README.md")
    ck.expect(st != 200, "static", "GET /../README.md gives %d" % st)


def modes(ck):
    """The annotation tool shows every kind of image with its proportions."""
    root = os.path.join(ck.scratch, "m")
    os.makedirs(root + "/images", exist_ok=True)
    open(root + "/images/a.jpg", "wb").close()
    app = tool(root)
    for mode in ("RGB", "L", "RGBA", "P", "LA", "1", "CMYK", "I;16"):
        for w, h in ((8, 8), (40, 20), (20, 40), (300, 10)):
            for ext in ("png", "jpg", "tif"):
                arr = np.zeros((h, w, 3), np.uint8)
                arr[:, w // 2:] = (250, 250, 250)
                im = Image.fromarray(arr)
                if mode == "I;16":
                    im = Image.fromarray(np.zeros((h, w), np.uint16))
                else:
                    im = im.convert(mode)
                try:
                    im.save(root + "/images/x." + ext)
                except (OSError, KeyError):
                    continue
                for size in (0, 10, 32, 1024):
                    ck.ev()
                    try:
                        st, body = get(app, "/sequence_view_1/image/%d/x.%s" % (size, ext))
                    except Exception as e:
                        ck.fail("mode", "an image %s %s %dx%d at %d raises %s: %s" % (ext, mode, w, h, size, type(e).__name__, e))
                        continue
                    ck.expect(st == 200, "mode", "an image %s %s %dx%d at %d: status %d" % (ext, mode, w, h, size, st))
                    if size == 0:
                        ck.expect(body == open(root + "/images/x." + ext, "rb").read(), "mode", "an image is not sent as it is")
                        continue
                    got = Image.open(io.BytesIO(body))
                    s = min(1.0, size / max(w, h))
                    want = (max(1, w * s), max(1, h * s))
                    ck.expect(abs(got.size[0] - want[0]) <= 1 and abs(got.size[1] - want[1]) <= 1, "size",
                              "an image of %dx%d at %d has size %r" % (w, h, size, got.size))
                    if mode != "I;16" and got.size[0] >= 8 and got.size[1] >= 2:
                        g = np.asarray(got.convert("L")).astype(int)
                        ck.expect(g[:, :got.size[0] // 4].mean() < 60 and g[:, -(got.size[0] // 4):].mean() > 190, "content",
                                  "an image %s %s %dx%d at %d shows something else" % (ext, mode, w, h, size))
                    ck.outcome((mode, got.size, got.mode))


def check(ck, case):
    if case[0] == "paths":
        paths(ck, *case[1:])
    else:
        {"items": lambda: items(ck, case[1]), "nodata": lambda: nodata(ck), "modes": lambda: modes(ck)}[case[0]]()
