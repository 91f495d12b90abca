"""C44: what the page of the viewer shows follows its switches, menus, files and reference, after any history."""
import itertools
import json
import math
import os
import shutil
import subprocess

import numpy as np

from c43 import cluster, where

LEVEL = "model"
RULE = ("all histories of keys, menu changes, chosen, picked and dropped files, images and references up to the depth, against a model of the page; basemap: all histories of its settings; "
        "orbit controls: all views under all sequences of references; non-trivial: distinct pages")
ASSUMPTIONS = ["mapillary-js, three, dat.gui, gl-matrix and the browser are replaced by stand-ins of what the page uses", "sites where the tiles of the map wrap around (180 degrees, poles) are left out",
               "what shaders paint is not looked at"]
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
NODE = {}
STUBS = [("mapillary.module.js", "mapillary-js/dist"), ("vec3.js", "gl-matrix/esm"), ("mat4.js", "gl-matrix/esm"), ("common.js", "gl-matrix/esm"), ("three.module.js", "three/build"),
         ("OrbitControls.js", "three/examples/jsm/controls"), ("dat.gui.module.js", "dat.gui/build"), ("page.mjs", "..")]


def node(ck):
    p = NODE.get("p")
    if p is not None and p.poll() is None:
        return p
    v = os.path.join(ck.scratch, "page%d" % os.getpid())
    shutil.rmtree(v, ignore_errors=True)
    os.makedirs(os.path.join(v, "node_modules"))
    shutil.copytree(os.path.join(REPO, "viewer/src"), os.path.join(v, "src"))
    for name, to in STUBS:
        t = os.path.join(v, "node_modules", to)
        os.makedirs(t, exist_ok=True)
        shutil.copy(os.path.join(HERE, "../viewer_stub", name), t)
    with open(os.path.join(v, "package.json"), "w") as f:
        f.write('{"type": "module"}')
    NODE["p"] = subprocess.Popen(["node", "page.mjs"], cwd=v, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return NODE["p"]


def ask(ck, case):
    p = node(ck)
    try:
        p.stdin.write(json.dumps(case) + "\n")
        p.stdin.flush()
        line = p.stdout.readline()
    except BrokenPipeError:
        line = ""
    ck.ev()
    if not line:
        return {"raised": "the viewer's code could not be run"}
    return json.loads(line)


def worker_done(ck):
    p = NODE.pop("p", None)
    if p is not None:
        p.stdin.close()
        p.wait(10)


def fine(ck, key, r):
    return ck.expect("raised" not in r, key, lambda: r["raised"][:400])


# ---------------------------------------------------------------- model of the page
TOGGLES = dict(c="axesVisible", y="gridVisible", m="basemapVisible", d="cellsVisible", e="commandsVisible", r="imagesVisible", f="pointsVisible", t="statsVisible", v="thumbnailVisible")
SIZES = dict(q=("pointSize", 0.9), w=("pointSize", 1.1), a=("cameraSize", 0.9), s=("cameraSize", 1.1), z=("infoSize", 0.9), x=("infoSize", 1.1))
CVM = ["Hidden", "Homogeneous", "Cluster", "ConnectedComponent", "Sequence"]
OPM = ["Hidden", "Flat", "Altitude"]
OPMN = {"Hidden": 0, "Altitude": 1, "Flat": 2}
CCM = ["orbit", "earth", "street"]
CONTROLS = {"orbit": 0, "earth": 1, "street": 2}
START = dict(axesVisible=True, gridVisible=True, basemapVisible=False, cellsVisible=False, commandsVisible=True, imagesVisible=False, pointsVisible=True, statsVisible=True, thumbnailVisible=False,
             pointSize=0.2, cameraSize=0.5, infoSize=0.3, cameraVisualizationMode="Homogeneous", originalPositionMode="Hidden", cameraControlMode="orbit",
             basemapOpacity=1.0, basemapAltitude=-1.0, basemapTileCount=121, basemapZoomLevel=19, tileServerUrl="https://tile.openstreetmap.org/{z}/{x}/{y}.png")
REFS = [{"lat": 47.1, "lng": 6.2, "alt": 400.0}, {"lat": -33.9, "lng": 151.2, "alt": -20.0}, {"lat": 0.001, "lng": -0.001, "alt": 0.0}]
SERVED = {"r0.json": [cluster(["a.jpg", "b.jpg"], npoints=3)], "r1.json": [cluster(["a.jpg"], npoints=1), cluster(["c"], npoints=2)], "other.json": {"what": 1},
          "nop.json": [{k: v for k, v in cluster(["n.jpg"]).items() if k != "points"}]}
ITEMS = [{"name": "r1.json", "type": "RECONSTRUCTION", "children": [], "url": ["data/r1.json"]}, {"name": "sub/r0.json", "type": "RECONSTRUCTION", "children": [], "url": ["data/sub/r0.json"]},
         {"name": "nop.json", "type": "RECONSTRUCTION", "children": [{"name": "r0.json", "type": "RECONSTRUCTION", "children": [], "url": ["data/r0.json"]}], "url": ["data/nop.json"]},
         {"name": "lost.json", "type": "RECONSTRUCTION", "children": [], "url": ["data/lost.json"]}, {"name": "other.json", "type": "OTHER", "children": [], "url": ["data/other.json"]}]


def traverse(items, chosen, inside=False):
    """what is loaded for the chosen lines: them and what is inside"""
    for i in items:
        on = inside or i["name"] in chosen
        if on:
            yield i
        yield from traverse(i["children"], chosen, on)


class Page:
    def __init__(self, files, ref):
        self.conf = dict(START)
        self.items = {}
        self.files = []
        self.closed = True
        self.panel = False
        self.chosen = set()
        self.image = None
        self.ref = ref
        for f in files:
            self.load(f, SERVED.get(f.split("/")[-1]))

    def load(self, name, data):
        if isinstance(data, list) and data:
            for c in data:
                cid = "cluster_%d" % len(self.files)
                self.files.append((cid, name, c))
                self.items[cid] = True

    def op(self, op, *a):
        c = self.conf
        if op == "key":
            k = a[0]
            if k in TOGGLES:
                c[TOGGLES[k]] = not c[TOGGLES[k]]
            elif k in SIZES:
                v, f = SIZES[k]
                c[v] = min(1, max(0.01, c[v] * f))
            elif k in "123":
                v, cyc = [("cameraVisualizationMode", CVM), ("originalPositionMode", OPM), ("cameraControlMode", CCM)][int(k) - 1]
                c[v] = cyc[(cyc.index(c[v]) + 1) % len(cyc)]
            elif k == "l":
                self.closed = not self.closed
            elif k == "p":
                self.panel = not self.panel
        elif op == "menu":
            if a[0] in self.items:
                self.items[a[0]] = a[1]
            else:
                c[a[0]] = a[1]
        elif op == "press":
            if a[0] == "toggle":
                to = not (self.items and all(self.items.values()))
                self.items = {k: to for k in self.items}
            else:
                self.panel = not self.panel
        elif op == "reference":
            self.ref = a[0]
        elif op == "image":
            self.image = a[0]
        elif op == "choose" and self.panel:
            for n in a[0]:
                self.chosen ^= {n}
        elif op == "submit" and self.panel:
            for i in traverse(ITEMS, self.chosen):
                    self.load(i["name"], SERVED.get(i["name"].split("/")[-1]))
            self.chosen = set()
        elif op in ("pick", "drop") and self.panel:
            for f in a[0]:
                if f.get("type") == "application/json" and not f.get("bad") and f.get("kind", "file") == "file":
                    try:
                        self.load(f["name"], json.loads(f["text"]))
                    except ValueError:
                        pass
        elif op == "exit":
            self.panel = False


def close(a, b):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) < 1e-9


def compare(ck, key, m, r, moved):
    c = m.conf
    ck.expect(r["bad"] is None and not r["unhandled"], key, lambda: "%s %s" % (r["bad"], r["unhandled"]))
    if r["bad"] is not None:
        return
    s = r["spatial"]
    want = dict(cellsVisible=c["cellsVisible"], pointsVisible=c["pointsVisible"], cameraVisualizationMode=CVM.index(c["cameraVisualizationMode"]), originalPositionMode=OPMN[c["originalPositionMode"]])
    ck.expect(all(s.get(k) == v for k, v in want.items()) and close(s.get("pointSize"), c["pointSize"]) and close(s.get("cameraSize"), c["cameraSize"]), key, lambda: "the view is set to %s, expected %s of %s" % (s, want, c))
    act = set(r["active"]) & {"image", "direction", "zoom"}
    ccm = c["cameraControlMode"]
    exp = ({"image"} if c["imagesVisible"] else set()) | ({"direction", "zoom"} if ccm == "street" else set())
    ck.expect(act == exp and "spatial" in r["active"], key, lambda: "shown with %s, expected %s" % (r["active"], exp))
    ck.expect(r["controls"] == CONTROLS[ccm], key, lambda: "controls %s for %s" % (r["controls"], ccm))
    w = r["width"]
    ck.expect(isinstance(w, str) and w.endswith("%") and close(float(w[:-1]), 100 * c["infoSize"]), key, lambda: "panels are %s wide, expected %s" % (w, c["infoSize"]))
    p = r["panels"]
    for name, sw in (("Stats", "statsVisible"), ("Thumbnail", "thumbnailVisible"), ("Commands", "commandsVisible")):
        ck.expect(name in p and p[name]["hidden"] == (not c[sw]), key, lambda: "%s: %s, switch %s" % (name, p.get(name), c[sw]))
    # totals
    ns, np_ = sum(len(x["shots"]) for _, _, x in m.files), sum(len(x.get("points", {})) for _, _, x in m.files)
    st = p["Stats"]["texts"]
    ck.expect("Total: %d images, %d points" % (ns, np_) in st and len(st) == 1 + len(m.files), key, lambda: "stats %s of %s files" % (st, len(m.files)))
    # commands are all explained
    ks = set(TOGGLES) | set(SIZES) | set("123lp")
    ck.expect({t[1] for t in p["Commands"].get("popup", [])} == ks and len(p["Commands"]["popup"]) == len(ks), key, lambda: "explains %s" % p["Commands"].get("popup"))
    if m.image and c["thumbnailVisible"]:
        cid, n = m.image.split("|")
        t = p["Thumbnail"]
        ck.expect(t["src"] == "src of " + m.image and "Image: " + n in t["texts"] and "Cluster: " + cid in t["texts"], key, lambda: "shows %s for %s" % (t, m.image))
    # clusters
    ck.expect(r["clusters"] == [f for f, _, _ in m.files], key, lambda: "holds %s, expected %s" % (r["clusters"], [f[:2] for f in m.files]))
    raw = sorted(x.rsplit("/", 1)[-1] for x in r["raw"])
    ck.expect(raw == sorted(f.rsplit("/", 1)[-1] for _, f, _ in m.files), key, lambda: "comes from %s, expected %s" % (raw, m.files))
    menu = r["menus"]
    for cid in m.items:
        ck.expect(cid in menu and menu[cid]["value"] == m.items[cid], key, lambda: "the menu has %s for %s" % (menu.get(cid), cid))
    if m.items:
        ck.expect(r["filter"] == ["in", "clusterId"] + [k for k, v in m.items.items() if v], key, lambda: "shows only %s of %s" % (r["filter"], m.items))
        ck.expect(menu["toggle"]["label"] == ("Hide all" if all(m.items.values()) else "Show all"), key, lambda: "offers %s with %s" % (menu["toggle"], m.items))
    # menus stay in step with keys, and offer all there is
    for k, v in c.items():
        if ck.expect(k in menu, key, "no menu for %s" % k):
            g = menu[k]["value"]
            ck.expect(close(g, v) if isinstance(v, float) or k.endswith("Size") else g == v, key, lambda: "the menu has %s for %s, expected %s" % (g, k, v))
    for k, v in (("cameraVisualizationMode", CVM), ("originalPositionMode", OPM), ("cameraControlMode", CCM)):
        ck.expect(sorted(menu[k]["args"][0]) == sorted(v), key, lambda: "%s offers %s" % (k, menu[k]["args"]))
    ck.expect(r["closed"] == m.closed, key, lambda: "menu closed: %s" % r["closed"])
    ck.expect((r["open"] > 0) == m.panel, key, lambda: "file panel open: %s, expected %s" % (r["open"], m.panel))
    ck.expect(menu["loadFiles"]["label"] in ("Hide load",) if m.panel else menu["loadFiles"]["label"] in ("Load file",), key, lambda: "file button %s" % menu["loadFiles"])
    ck.expect(r["moves"] == moved, key, lambda: "moved to %s, expected %s" % (r["moves"], moved))
    # what is drawn
    sc = r["sc"]
    drawn = m.ref is not None
    ax = sorted((col, [round(x, 3) > 0 for x in pos]) for col, pos in sc["axes"])
    ck.expect(ax == (sorted([(0xff0000, [True, False, False]), (0x00ff00, [False, True, False]), (0x0088ff, [False, False, True])]) if drawn and c["axesVisible"] else []), key, lambda: "axes %s" % sc["axes"])
    e = [x[0] for x in sc["earth"]]
    ck.expect(e == ([{"orbit": "still", "earth": "mouse"}[ccm]] if drawn and c["gridVisible"] and ccm != "street" else []), key, lambda: "grid %s in %s" % (e, ccm))
    ck.expect(sc["stale"] == 0, key, lambda: "%d of the things drawn were given back" % sc["stale"])
    n = sc["tiles"] if isinstance(sc["tiles"], int) else len(sc["tiles"])
    ck.expect(n == (math.floor(c["basemapTileCount"] + 0.5) if drawn and c["basemapVisible"] else 0), key, lambda: "%s tiles" % n)
    ck.outcome(json.dumps([r["spatial"], r["active"], r["controls"], r["filter"], sc, r["panels"]], sort_keys=True))


F = lambda name, data, **k: dict({"name": name, "type": "application/json", "text": data if isinstance(data, str) else json.dumps(data), "size": 5}, **k)  # noqa: E731
DROPS = [[F("r0.json", SERVED["r0.json"])], [F("broken.json", "{"), F("r1.json", SERVED["r1.json"])], [F("x.png", "", type="image/png"), F("nop.json", SERVED["nop.json"])],
         [F("other.json", SERVED["other.json"])], [F("e.json", [])], [F("u.json", "", bad=True), F("r0.json", SERVED["r0.json"])],
         [F("text", "", kind="string"), F("r0.json", SERVED["r0.json"])], [F("nop.json", SERVED["nop.json"]), F("text", "", kind="string")]]
OPS = ([["key", k] for k in list(TOGGLES) + list(SIZES) + list("123lp")]
       + [["menu", v, b] for v in TOGGLES.values() for b in (True, False)] + [["menu", v, x] for v in ("pointSize", "cameraSize", "infoSize") for x in (0.05, 0.95)]
       + [["menu", "cameraVisualizationMode", x] for x in ("Hidden", "Sequence")] + [["menu", "originalPositionMode", x] for x in OPM] + [["menu", "cameraControlMode", x] for x in CCM]
       + [["menu", "basemapTileCount", 5], ["press", "toggle"], ["press", "loadFiles"], ["menu", "cluster_0", False], ["image", "cluster_0|b.jpg"], ["image", "cluster_0|a.jpg"],
          ["reference", REFS[1]], ["reference", REFS[0]], ["exit"]])
FILEOPS = [["key", "p"], ["press", "loadFiles"], ["exit"], ["choose", ["r1.json"]], ["choose", ["sub/r0.json", "nop.json"]], ["choose", ["lost.json", "r1.json"]], ["choose", ["other.json"]], ["submit"]] \
    + [["drop", d] for d in DROPS] + [["pick", d] for d in (DROPS[0], DROPS[1], DROPS[3])] + [["menu", "cluster_0", False], ["press", "toggle"]]
MAPOPS = [["key", "m"], ["menu", "basemapOpacity", 0.5], ["menu", "basemapAltitude", 30.0], ["menu", "basemapTileCount", 1], ["menu", "basemapTileCount", 9], ["menu", "basemapTileCount", 12.6], ["menu", "basemapTileCount", 104], ["menu", "basemapTileCount", 130],
          ["menu", "basemapZoomLevel", 17], ["menu", "basemapZoomLevel", 15.3], ["menu", "tileServerUrl", "http://t/{x}-{y}?z={z}&again={z}"], ["reference", REFS[1]], ["reference", REFS[2]]]


def cases(ck):
    out = []
    for i in range(len(OPS)):
        out.append(["page", i, 3])
    out.append(["start"])
    for i in range(len(FILEOPS)):
        for j in range(len(FILEOPS)):
            out.append(["files", i, j, 4 if ck.quick else 5])
    for i in range(len(MAPOPS)):
        for j in range(len(MAPOPS)):
            out.append(["map", i, j, 4 if ck.quick else 5])
    for i in range(len(VIEWS)):
        out.append(["orbit", i, 3 if ck.quick else 4])
    for i in range(len(MOUSEOPS)):
        out.append(["mouse", i, 4 if ck.quick else 5])
    for i in range(len(LISTOPS)):
        out.append(["list", i, 5 if ck.quick else 6])
    out.append(["tries"])
    out.append(["mixed"])
    return out


def check(ck, c):
    globals()["run_" + c[0]](ck, *c[1:])


def play(ck, key, files, ref, ops, params=None, tiles=False, redraw=False, delay=True):
    """One history against the model; the basemap's tiles are looked at if asked for."""
    urls = ["data/" + f for f in files] or None
    m = Page(files, ref)
    first = list(m.files)
    for o in ops:
        if o[0] == "menu":
            have = m.items if o[1].startswith("cluster_") else m.conf
            if o[1] not in have or (isinstance(o[2], (bool, str)) and have[o[1]] == o[2]):
                return None, None  # no such line in the menu, or no change
        m.op(*o)
    r = ask(ck, {"run": "page", "files": urls, "reference": ref, "ops": ops, "items": ITEMS, "served": SERVED, "params": params or {}, "tiles": tiles, "redraw": redraw})
    if not fine(ck, key, r):
        return None, None
    if params and params.get("img"):
        moved = [params["img"]]
    else:
        moved = ["%s|%s" % (cid, next(iter(c["shots"]))) for cid, _, c in first[:1]]
    compare(ck, key, m, r, moved)
    ck.state(json.dumps([m.conf, m.items, m.closed, m.panel, sorted(m.chosen), m.image, m.ref, [f[:2] for f in m.files]], sort_keys=True))
    ck.transition(len(ops))
    return m, r


def run_page(ck, i, depth):
    for n in range(0, depth):
        for tail in itertools.product(range(len(OPS)), repeat=n):
            ops = [OPS[k] for k in (i,) + tail]
            if n == 2 and ck.quick and tail[1] != i and (tail[0] + 7 * tail[1] + i) % 11:
                continue
            play(ck, "page %s" % " ".join(str(o) for o in ops), ["r0.json"], REFS[0], ops, redraw=n < 2)
    # each key held down
    play(ck, "page %s held" % (OPS[i],), ["r0.json"], REFS[0], [OPS[i]] * (30 if OPS[i][0] == "key" else 3))


def run_start(ck):
    for files in ([], ["r0.json"], ["r1.json"], ["nop.json"], ["r0.json", "r1.json"], ["r1.json", "lost.json"], ["lost.json", "r0.json", "nop.json"]):
        for ref in [None] + REFS:
            for img in (None, "cluster_0|b.jpg"):
                for ops in [[o, ["reference", REFS[1]]] for o in OPS if len(files) == 1] + [[], [["reference", REFS[1]]], [["key", "m"], ["key", "c"]], [["key", "m"], ["reference", REFS[1]]]]:
                    play(ck, "start %s %s %s %s" % (files, ref, img, ops), files, ref, ops, {"img": img} if img else {})


def run_files(ck, i, j, depth):
    for n in range(1, depth - 1):
        for tail in itertools.product(range(len(FILEOPS)), repeat=n - 1):
            if n == 3 and sum((k + 1) * t for k, t in enumerate((i, j) + tail)) % (12 if depth == 4 else 5):
                continue
            ops = [["key", "p"]] + [FILEOPS[k] for k in (i, j) + tail]
            play(ck, "files %s" % json.dumps([o if o[0] not in ("drop", "pick") else [o[0], [f["name"] for f in o[1]]] for o in ops]), ["r0.json"], REFS[0], ops)


def enu(lat, lng, alt, ref):
    o = where([0, 0, 0], (ref["lat"], ref["lng"], ref["alt"]))
    la, lo = math.radians(ref["lat"]), math.radians(ref["lng"])
    d = where([0, 0, 0], (lat, lng, alt)) - o
    e = np.array([-math.sin(lo), math.cos(lo), 0])
    n = np.array([-math.sin(la) * math.cos(lo), -math.sin(la) * math.sin(lo), math.cos(la)])
    u = np.array([math.cos(la) * math.cos(lo), math.cos(la) * math.sin(lo), math.sin(la)])
    return np.array([d @ e, d @ n, d @ u])


def run_map(ck, i, j, depth):
    for n in range(1, depth - 1):
        for tail in itertools.product(range(len(MAPOPS)), repeat=n - 1):
            ops = [["menu", "basemapTileCount", 4]] * (1 + (i + j) % 2) + [MAPOPS[k] for k in (i, j) + tail]
            ops = ops[(i + j) % 2:] if (i + 2 * j) % 3 else [["key", "m"]] + ops
            if (i + 3 * j) % 5 == 0:
                ops = [["key", "c"], ["key", "y"]] + ops
            key = "map %s" % " ".join(str(o) for o in ops)
            m, r = play(ck, key, ["r0.json"], REFS[0], ops, tiles=True)
            if m is None or r["bad"] is not None or not m.conf["basemapVisible"]:
                continue
            c, ref = m.conf, m.ref
            z = math.floor(c["basemapZoomLevel"] + 0.5)
            k = 2 ** z
            x0 = math.floor((ref["lng"] + 180) / 360 * k)
            la = math.radians(ref["lat"])
            y0 = math.floor((1 - math.log(math.tan(la) + 1 / math.cos(la)) / math.pi) / 2 * k)
            cnt = math.floor(c["basemapTileCount"] + 0.5)
            ring = 0
            while (2 * ring + 1) ** 2 < cnt:
                ring += 1
            want = {}
            for dx in range(-ring, ring + 1):
                for dy in range(-ring, ring + 1):
                    url = c["tileServerUrl"].replace("{x}", str(x0 + dx)).replace("{y}", str(y0 + dy)).replace("{z}", str(z))
                    want[url] = (dx, dy)
            seen = set()
            for url, x, y, zz, w, h, op in r["sc"]["tiles"]:
                if not ck.expect(url in want and url not in seen, key, lambda: "tile %s, twice or too far from %s/%s/%s" % (url, z, x0, y0)):
                    continue
                seen.add(url)
                dx, dy = want[url]
                corner = []
                for a, b in ((0, 0), (1, 1)):
                    lng = (x0 + dx + a) / k * 360 - 180
                    lat = math.degrees(math.atan(math.sinh(math.pi * (1 - 2 * (y0 + dy + b) / k))))
                    corner.append(enu(lat, lng, ref["alt"] + c["basemapAltitude"], ref))
                mid, size = (corner[0] + corner[1]) / 2, abs(corner[0] - corner[1])
                tol = 1e-6 * max(size[0], 1)
                ck.expect(np.allclose((x, y, zz), mid, atol=tol) and np.allclose((w, h), size[:2], atol=2 * tol), key, lambda: "%s is at %s of size %s, expected %s %s" % (url, (x, y, zz), (w, h), mid, size))
                ck.expect(close(op, c["basemapOpacity"]), key, lambda: "%s has opacity %s" % (url, op))
            inner = {u for u, (dx, dy) in want.items() if max(abs(dx), abs(dy)) < ring}
            ck.expect(inner <= seen and any(want[u] == (0, 0) for u in seen), key, lambda: "tiles %s are missing" % sorted(inner - seen))


LISTOPS = [["key", "p"], ["exit"], ["deliver", True], ["deliver", False], ["drop", DROPS[0]], ["drop", DROPS[3]], ["choose", ["r1.json"]]]


def run_list(ck, i, depth):
    """the list of files arrives late or never"""
    for n in range(depth):
        for tail in itertools.product(range(len(LISTOPS)), repeat=n):
            if n == depth - 1 and ck.quick and sum((k + 1) * t for k, t in enumerate(tail)) % 3:
                continue
            ops = [LISTOPS[k] for k in (i,) + tail]
            key = "list %s" % json.dumps([o if o[0] != "drop" else [o[0], o[1][0]["name"]] for o in ops])
            up = False
            for o in ops:
                up = not up if o == ["key", "p"] else False if o == ["exit"] else up
            full = ops + [["key", "p"]] * (1 + up)  # opened once more at the end
            r = ask(ck, {"run": "page", "files": ["data/r0.json"], "reference": REFS[0], "ops": full, "items": ITEMS, "served": SERVED, "params": {}, "late": True})
            if not fine(ck, key, r):
                continue
            li = r["listed"]
            ck.expect(r["bad"] is None and not r["unhandled"], key, lambda: "%s %s" % (r["bad"], r["unhandled"]))
            ck.expect(sorted(li["items"]) == sorted(x["name"] for x in ITEMS) and sorted(li["categories"]) == sorted({x["type"] for x in ITEMS}) and len(li["submit"]) == 1, key, lambda: "lists %s" % li)
            ck.expect(li["inactive"] == 0, key, "the list can not be used")
            ck.outcome(json.dumps(li))
            ck.state((i,) + tail)
            ck.transition(n + 1)


def run_tries(ck):
    """files that can not be loaded, again and again"""
    for n in range(1, 16):
        for bad in (DROPS[3], [F("broken.json", "{")], [F("x.png", "", type="image/png")], [F("k", "", kind="string")]):
            for more in ([], [["key", "p"]], [["key", "p"], ["drop", DROPS[0]]], [["key", "p"], ["choose", ["r1.json"]], ["submit"]]):
                ops = [["key", "p"]] + [["drop", bad]] * n + more
                key = "tries %d %s %s" % (n, bad[0]["name"], [o[0] for o in more])
                r = ask(ck, {"run": "page", "files": ["data/r0.json"], "reference": REFS[0], "ops": ops, "items": ITEMS, "served": SERVED, "params": {}})
                if not fine(ck, key, r):
                    continue
                ck.expect(r["bad"] is None and not r["unhandled"], key, lambda: "%s %s" % (r["bad"], r["unhandled"]))
                ck.expect((r["menus"]["loadFiles"]["label"] == "Hide load") == (r["open"] > 0), key, lambda: "the button says %r, open: %s" % (r["menus"]["loadFiles"]["label"], r["open"]))
                if n < 6:
                    ck.expect((r["open"] > 0) == (not more), key, lambda: "open: %s" % r["open"]) if len(more) < 2 else None
                ck.outcome((n > 10, r["open"] > 0, len(r["clusters"])))


def look(p, d, fov):
    """the matrices of a view, as lists by columns"""
    z = -np.array(d) / np.linalg.norm(d)
    x = np.cross([0.1, 0, 1.0], z)
    x /= np.linalg.norm(x)
    M = np.eye(4)
    M[:3, :3] = np.stack([x, np.cross(z, x), z], 1)
    M[:3, 3] = p
    f = 1 / math.tan(fov / 2)
    P = np.array([[f / (640 / 480), 0, 0, 0], [0, f, 0, 0], [0, 0, -1.0002, -0.20002], [0, 0, -1, 0]])
    return M, P, ["look", np.linalg.inv(M).T.ravel().tolist(), P.T.ravel().tolist()]


LOOKS = [look((10, 20, 5), (0.48, 0.64, -0.6), 1.5), look((-300, 40, 60), (0, -0.9, -0.2), 0.8), look((0, 0, 2), (1, 0, 0.3), 1.0)]
MOUSEOPS = [x[2] for x in LOOKS] + [["mouse", px] for px in ([320, 240], [10, 470], [600, 100])] + [["menu", "cameraControlMode", "earth"], ["key", "3"], ["key", "y"], ["key", "c"]]


def run_mixed(ck):
    """loading that succeeds in part is no failure, however often"""
    for n in range(1, 16):
        ops = [["key", "p"]] + [["choose", ["r1.json", "lost.json"]], ["submit"]] * n
        play(ck, "mixed %d" % n, ["r0.json"], REFS[0], ops)


def run_mouse(ck, i, depth):
    """where the mouse meets the ground in the earth mode, the grid shows a disc"""
    for n in range(depth):
        for tail in itertools.product(range(len(MOUSEOPS)), repeat=n):
            if n == depth - 1 and ck.quick and sum((k + 1) * t for k, t in enumerate(tail)) % 3:
                continue
            ops = [LOOKS[0][2], ["menu", "cameraControlMode", "earth"]] + [MOUSEOPS[k] for k in (i,) + tail]
            if any(o == ["menu", "cameraControlMode", "earth"] and i for i, o in enumerate(ops[2:]) if not any(q == ["key", "3"] for q in ops[2:2 + i])):
                continue
            key = "mouse %s" % " ".join("look %d" % [x[2] for x in LOOKS].index(o) if o[0] == "look" else str(o) for o in ops)
            m, r = play(ck, key, ["r0.json"], REFS[0], ops)
            if m is None or r["bad"] is not None:
                continue
            mode, grid, at, disc, known = "orbit", True, LOOKS[0], None, True
            for o in ops:
                if o[0] == "look":
                    at = [x for x in LOOKS if x[2] is o][0]
                elif o[0] == "menu" or o == ["key", "3"]:
                    mode = o[2] if o[0] == "menu" else CCM[(CCM.index(mode) + 1) % 3]
                    disc, known = None, True
                elif o == ["key", "y"]:
                    grid, known = not grid, False
                elif o[0] == "mouse" and grid and mode == "earth":
                    M, P, _ = at
                    far = np.linalg.inv(P) @ [2 * o[1][0] / 640 - 1, 1 - 2 * o[1][1] / 480, 0.5, 1]
                    e = M[:3, 3]
                    d = (M @ far)[:3] / (M @ far)[3] - e
                    t = (-2 - e[2]) / d[2]
                    hit = e + t * d
                    disc, known = hit if t > 0 and max(abs(hit[:2])) <= 5000 else None, True
            if mode == "earth" and grid and known:
                g = r["sc"]["earth"]
                ck.expect(len(g) == 1 and g[0][0] == "mouse" and g[0][1] == (disc is not None) and (disc is None or np.allclose(g[0][2:], disc[:2], atol=1e-6 * max(1, abs(disc[:2]).max()))),
                          key, lambda: "the disc is %s, expected at %s" % (g, disc))
                ck.outcome(("mouse", None if disc is None else tuple(np.round(disc, 6))))


VIEWS = [([0.0, 0.0, 0.0], None)] + [(list(p), d) for p in ((10.0, 20.0, 5.0), (0.0, 30.0, 12.0), (0.0, 0.0, 40.0), (0.0, 7.0, 0.0), (8.0, -3.0, -25.0), (4.0, 6.0, -1.7), (70.0, 10.0, 9000.0), (-3.0, 0.0, 1.5), (500.0, -800.0, 100.0))
                                     for d in ((0.0, 1.0, 0.0), (0.6, -0.8, 0.0), (0.48, 0.64, -0.6), (-0.8, 0.0, 0.6), (0.0, -0.9, -math.sqrt(1 - 0.81)))]
NEAR = [{"lat": 47.1, "lng": 6.2, "alt": 400.0}, {"lat": 47.1005, "lng": 6.2, "alt": 400.0}, {"lat": 47.1, "lng": 6.1993, "alt": 380.0}]


def run_orbit(ck, i, depth):
    p, d = VIEWS[i]
    if d is None:
        M = np.eye(4)
    else:
        z = -np.array(d)
        x = np.cross([0, 0, 1.0], z)
        x /= np.linalg.norm(x)
        y = np.cross(z, x)
        M = np.eye(4)
        M[:3, :3] = np.stack([x, y, z], 1)
        M[:3, 3] = p
    view = np.linalg.inv(M)
    for n in range(1, depth + 1):
        for refs in itertools.product(range(len(NEAR)), repeat=n):
            key = "orbit %s %s references %s" % (p, d, refs)
            r = ask(ck, {"run": "orbit", "view": view.T.ravel().tolist(), "refs": [NEAR[k] for k in refs]})
            if not fine(ck, key, r):
                continue
            ck.expect(r["start"] is not None and r["proj"] >= 2 and r["more"] == 0, key, lambda: "%s" % r)
            if r["start"] is None:
                continue
            A, B = [np.linalg.inv(np.array(r[k]).reshape(4, 4).T) for k in ("start", "end")]
            if d is not None:
                ck.expect(np.allclose(A[:3, 3], p, atol=1e-5) and np.allclose(-A[:3, 2], d, atol=1e-5), key, lambda: "starts at %s looking to %s" % (A[:3, 3], -A[:3, 2]))
            a = where(A[:3, 3], [NEAR[refs[0]][k] for k in ("lat", "lng", "alt")])
            b = where(B[:3, 3], [NEAR[refs[-1]][k] for k in ("lat", "lng", "alt")])
            ck.expect(np.linalg.norm(a - b) < 1e-3 and np.allclose(A[:3, :3], B[:3, :3], atol=1e-4), key, lambda: "moves by %s and turns to %s from %s" % (b - a, B[:3, 2], A[:3, 2]))
            ck.state((i, refs))
            ck.transition(n)
            ck.outcome(np.round(B, 4).tolist())
