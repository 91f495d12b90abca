"""C46: the CAD views of the annotation tool record and show what one points at, where it is."""
import copy
import itertools
import json
import os
import shutil
import subprocess
import sys
import types

import boot
import c31

LEVEL = "model_checking"
RULE = ("breadth-first search over the sequences of requests to two CAD views, an image view and the tools pane (add, delete, select, mark and unmark "
        "in a model and in an image, save, load), from three ground_control_points.json, against a written model; all sequences of what happens to the "
        "page of a CAD view in a browser; all georeferences x points; all places of models around a dataset; states: model states, transitions: requests")
ASSUMPTIONS = ["stand-ins for the packages magic and rasterio (an exact, invertible projection), and for the package name mapillary.opensfm of the repository",
               "the page runs in node on stand-ins for three.js and the browser: what is picked and drawn is recorded, not rendered"]

LON0, LAT0, KX, KY = 12.0, 50.0, 70000.0, 111000.0
CRS = "EPSG:32633"
METAS = {"house.fbx": {"scale": 100.0, "crs": CRS, "offset": [-5000.0, 2500.0, 300.0], "center": {"latitude": 50.0, "longitude": 12.0}},
         "tree top.FBX": {"scale": 1.0, "crs": CRS, "offset": [10.0, -20.0, -3.0], "center": {"latitude": 50.1, "longitude": 12.1}}}
XYZ = {"u": [150.0, 1000.0, -375.0], "v": [-4000.5, 0.0, 12.25]}
DOCS = {"none": None, "documented": c31.DOC, "rich": {"points": [
    {"id": "0", "observations": [{"shot_id": "a.jpg", "projection": [0.25, -0.125], "precision": 0.5}, {"shot_id": "tree top.FBX", "point": [1.0, 2.0, 3.0], "precision": 100}],
     "position": {"latitude": 1.5, "longitude": -2.5, "horizontal_std": 3.0, "measured_at": 1600000000, "altitude": 4.0, "vertical_std": 0.5}},
    {"id": "q", "observations": [{"shot_id": "house.fbx", "point": [1.0, 2.0, 3.0], "precision": 7.0}, {"shot_id": "house", "point": [9.0, 9.0, 9.0], "precision": 1.0}]}]}}
REPRO = {"house.fbx": {"0": [1.0, 2.0, 4.5], "gone": [0.0, 0.0, 0.0]}, "tree top.FBX": {"0": [7.0, 8.0, 9.0]}}
PANES = {"/cad_view_1": "house.fbx", "/cad_view_2": "tree top.FBX"}


def transform(src_crs, dst_crs, xs, ys, zs=None):
    src, dst = str(src_crs), str(dst_crs)
    zs = list(zs) if zs is not None else [0.0] * len(xs)
    if (src, dst) == (CRS, "EPSG:4326"):
        return [x / KX + LON0 for x in xs], [y / KY + LAT0 for y in ys], zs
    if (src, dst) == ("EPSG:4326", CRS):
        return [(x - LON0) * KX for x in xs], [(y - LAT0) * KY for y in ys], zs
    raise AssertionError("transformation from %r to %r" % (src, dst))


def stub():
    c31.stub()
    r = sys.modules["rasterio"]
    w = types.ModuleType("rasterio.warp")
    w.transform = transform
    r.warp = w
    sys.modules["rasterio.warp"] = w


def geo(meta, xyz):
    """position of a point of a model: up is y, south is z, model units are scale per metre after the offset"""
    e, n, u = xyz[0], -xyz[2], xyz[1]
    o, s = meta["offset"], meta["scale"]
    return {"latitude": (n + o[1]) / s / KY + LAT0, "longitude": (e + o[0]) / s / KX + LON0, "altitude": (u + o[2]) / s, "horizontal_std": 100}


def models(path):
    os.makedirs(os.path.join(path, "cad"), exist_ok=True)
    out = []
    for name, meta in METAS.items():
        f = os.path.join(path, "cad", name)
        open(f, "w").write("model " + name)
        json.dump(meta, open(os.path.splitext(f)[0] + ".json", "w"))
        out.append(f)
    return out


class Session(c31.Session):
    def __init__(self, path):
        from pathlib import Path
        stub()
        from flask import Flask
        from mapillary.opensfm.annotation_gui_gcp.lib import GUI
        from mapillary.opensfm.annotation_gui_gcp.lib.gcp_manager import GroundControlPointManager
        from mapillary.opensfm.annotation_gui_gcp.lib.image_manager import ImageManager
        app = Flask("tool", template_folder=os.path.join(boot.REPO, "annotation_gui_gcp/templates"))
        app.testing = True
        self.gui = GUI.Gui(app, GroundControlPointManager(path), ImageManager({"s1": ["a.jpg", "b.jpg"]}, path), None, [Path(f) for f in models(path)])
        self.client = app.test_client()
        assert self.client.post("/tools/postdata", json={"event": "init"}).status_code == 200
        self.views = {r: self.stream(r) for r in ("/tools", "/sequence_view_1", "/current_cp_view", *PANES)}
        self.first = {k: self.message(it) for k, it in self.views.items()}


class Model(c31.Model):
    def ops(self):
        out = [("add",), ("del",), ("save",), ("load",)] + [("select", p) for p in self.pts]
        for pane in PANES:
            out += [("point", pane, w) for w in XYZ] + [("unpoint", pane)]
        if self.cur is not None:
            out += [("mark", 1, "a.jpg", "u", self.cur), ("unmark", 1, "a.jpg", self.cur)]
        return out

    def apply(self, op, new_id=None):
        if op[0] not in ("point", "unpoint"):
            return super().apply(op, new_id)
        if self.cur is None:
            return
        p, name = self.pts[self.cur], PANES[op[1]]
        p["obs"] = [o for o in p["obs"] if o["shot_id"] != name]
        if op[0] == "point":
            p["obs"].append({"shot_id": name, "point": XYZ[op[2]], "precision": 100})
            p["geo"] = geo(METAS[name], XYZ[op[2]])


def request(op):
    if op[0] == "point":
        return op[1], {"event": "add_or_update_point_observation", "xyz": XYZ[op[2]]}
    if op[0] == "unpoint":
        return op[1], {"event": "remove_point_observation"}
    return c31.request(op)


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * (1 + abs(b))
    return a == b


def compare(ck, m, got, path, where):
    t = got["/tools"]
    want = c31.unparse(m.pts)
    ck.expect(same(c31.clean(t["points"]), want), "points", lambda: "%s the points are\n%r\ninstead of\n%r" % (where, t["points"], want))
    for k, v in got.items():
        ck.expect(v["selected_point"] == m.cur, "selected", lambda: "%s %s shows point %r as selected instead of %r" % (where, k, v["selected_point"], m.cur))
    cols = got["/sequence_view_1"]["colors"]
    for pane, name in PANES.items():
        want = {}
        for k, p in m.pts.items():
            for o in p["obs"]:
                if o["shot_id"] == name:
                    want[k] = {"coordinates": o["point"], "precision": o["precision"], "color": [int(cols[k][i:i + 2], 16) for i in (1, 3, 5)]}
                    if k in REPRO[name]:
                        want[k]["reprojection"] = REPRO[name][k]
        ck.expect(same(got[pane]["annotations"], want), "cad-view", lambda: "%s %s shows\n%r\ninstead of\n%r" % (where, name, got[pane]["annotations"], want))
    vis = c31.visible(m, ["a.jpg", "b.jpg"])
    ck.expect(got["/sequence_view_1"]["points"] == vis, "view", lambda: "%s the images show %r instead of %r" % (where, got["/sequence_view_1"]["points"], vis))
    f = os.path.join(path, "ground_control_points.json")
    doc = json.load(open(f)) if os.path.isfile(f) else None
    if doc is not None:
        doc = {"points": c31.clean(doc["points"])}
    ck.expect(same(doc, m.file), "file", lambda: "%s the file has\n%r\ninstead of\n%r" % (where, doc, m.file))


def start(ck, s):
    path = os.path.join(ck.scratch, "d")
    c31.put(path, DOCS[s])
    for name, r in REPRO.items():
        json.dump(r, open(os.path.join(path, "gcp_reprojections_3D_0x%s.json" % name), "w"))
    return path


def history(ck, s, ops):
    path = start(ck, s)
    m = Model(DOCS[s])
    where = "start with %s, %r:" % (s, ops)
    try:
        S = Session(path)
        if len(ops) == 1:
            compare(ck, m, S.first, path, "start with %s:" % s)
        for i, op in enumerate(ops):
            before = list(m.pts)
            got = S.send(*request(op))
            new = None
            if op[0] == "add":
                new = ([p["id"] for p in got["/tools"]["points"]][-1:] or [None])[0]
                ck.expect(new is not None and new not in before, "new-id", "%s the new point has id %r, there were %r" % (where, new, before))
            m.apply(op, new)
            if i == len(ops) - 1:
                compare(ck, m, got, path, where)
    except Exception as e:
        ck.fail("raised", "%s %s: %s" % (where, type(e).__name__, e))
        return m, False
    return m, True


def bfs(ck, s, depth, first):
    frontier, seen = [[Model(DOCS[s]).ops()[first]]], set()
    for d in range(depth):
        nxt = []
        for h in frontier:
            m, ok = history(ck, s, h)
            ck.transition()
            ck.add("traces")
            if not ok:
                return
            c = m.canon()
            ck.state([s, c])
            if c not in seen:
                seen.add(c)
                nxt += [h + [op] for op in m.ops()]
        if ck.violations:
            return
        frontier = nxt
    ck.sample("start %s, last history %r" % (s, h))


def places(ck):
    """All georeferences x points of a model: the saved position, and the way back for a camera that is followed."""
    path = start(ck, "none")
    S = Session(path)
    S.send("/tools", {"event": "addCP", "data": {}})
    for name in METAS:
        r = S.client.get(("/cad_view_1" if name == "house.fbx" else "/cad_view_2") + "/model")
        ck.ev()
        ck.expect(r.status_code == 200 and r.get_data() == ("model " + name).encode(), "model", "%s is served as %r" % (name, r.get_data()[:50]))
    for scale, off in itertools.product((1.0, 100.0, 0.3048), itertools.product((0.0, 1234.5), (0.0, -77.0), (0.0, 5.0))):
        meta = {"scale": scale, "crs": CRS, "offset": list(off)}
        views = S.gui.cad_views
        f = os.path.join(ck.scratch, "d", "cad", "house.fbx")
        json.dump(meta, open(os.path.splitext(f)[0] + ".json", "w"))
        from pathlib import Path
        views[0].load_georeference_metadata(Path(f))
        for xyz in itertools.product((0.0, 250.0, -31.5), repeat=3):
            ck.ev()
            ck.outcome((scale, off, xyz))
            got = S.send("/cad_view_1", {"event": "add_or_update_point_observation", "xyz": list(xyz)})
            pos = c31.clean(got["/tools"]["points"])[0].get("position")
            want = geo(meta, xyz)
            ck.expect(pos is not None and same(pos, want), "position", lambda: "%r of a model at %r is at %r, not %r" % (xyz, meta, pos, want))
            S.gui.refocus_overhead_views(want["latitude"], want["longitude"])
            msg = S.take(S.views["/cad_view_1"])
            S.take(S.views["/cad_view_2"])
            ck.expect(msg.startswith("event: move_camera\ndata: "), "move", "the followed camera sends %r" % msg)
            d = json.loads(msg.split("data: ", 1)[1])
            ck.expect(abs(d["x"] - xyz[0]) < 1e-4 and abs(d["z"] - xyz[2]) < 1e-4, "move", lambda: "a camera over %r of a model at %r is shown at %r" % (xyz, meta, d))


def suitable(ck):
    """The models offered for a dataset: the nearest ones, whatever their order, names and folders."""
    stub()
    import importlib
    main = importlib.import_module("mapillary.opensfm.annotation_gui_gcp.main")
    ring = [(0.0, 0.001), (-0.02, 0.0), (0.1, 0.1), (0.0, -3.0)]  # one farther than the other in any measure
    names = ["z.fbx", "sub/a.FBX", "m.fbx", "sub/deep/b.fbx"]
    k = 0
    for perm in itertools.permutations(range(4)):
        for lat, lon in ((50.0, 12.0), (-33.0, 151.0), (0.0, 0.0)):
            for n in (1, 2, 6):
                k += 1
                ck.ev()
                root = os.path.join(ck.scratch, "m%d" % k)
                os.makedirs(os.path.join(root, "images"))
                open(os.path.join(root, "images", "a.jpg"), "w").close()
                want = [None] * 4
                for i, name in zip(perm, names):
                    f = os.path.join(root, "models", name)
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    open(f, "w").close()
                    json.dump({"center": {"latitude": lat + ring[i][0], "longitude": lon + ring[i][1]}}, open(os.path.splitext(f)[0] + ".json", "w"))
                    want[i] = f
                json.dump({"latitude": lat, "longitude": lon, "altitude": 30.0}, open(os.path.join(root, "reference_lla.json"), "w"))
                try:
                    from pathlib import Path
                    got = [str(p) for p in main.find_suitable_cad_paths(Path(root) / "models", root, n)]
                    ck.expect(got == want[:n], "nearest", lambda: "the %d nearest of %r to %r are %r" % (n, [(w, ring[i]) for i, w in enumerate(want)], (lat, lon), got))
                    ck.expect(main.find_suitable_cad_paths(None, root, n) == [], "nearest", "models without a folder of models")
                except Exception as e:
                    ck.fail("nearest", "models around %r: %s: %s" % ((lat, lon), type(e).__name__, e))
                shutil.rmtree(root)


PAGE = r"""
const fs = require("fs"), vm = require("vm");
const [page, web, cases] = [process.argv[2], process.argv[3], JSON.parse(fs.readFileSync(process.argv[4]))];
class Vector3 {
  constructor(x = 0, y = 0, z = 0) { this.x = x; this.y = y; this.z = z; }
  set(x, y, z) { this.x = x; this.y = y; this.z = z; return this; }
  copy(v) { return this.set(v.x, v.y, v.z); } clone() { return new Vector3(this.x, this.y, this.z); }
  sub(v) { return this.set(this.x - v.x, this.y - v.y, this.z - v.z); } add(v) { return this.set(this.x + v.x, this.y + v.y, this.z + v.z); }
  subVectors(a, b) { return this.copy(a).sub(b); } addVectors(a, b) { return this.copy(a).add(b); }
  length() { return Math.hypot(this.x, this.y, this.z); } multiplyScalar(s) { return this.set(this.x * s, this.y * s, this.z * s); }
  divideScalar(s) { return this.multiplyScalar(1 / s); } distanceTo(v) { return this.clone().sub(v).length(); }
  normalize() { return this.divideScalar(this.length() || 1); } setLength(l) { return this.normalize().multiplyScalar(l); }
  min(v) { return this.set(Math.min(this.x, v.x), Math.min(this.y, v.y), Math.min(this.z, v.z)); }
  max(v) { return this.set(Math.max(this.x, v.x), Math.max(this.y, v.y), Math.max(this.z, v.z)); }
  setX(x) { this.x = x; return this; } setY(y) { this.y = y; return this; } setZ(z) { this.z = z; return this; }
  fromArray(a) { return this.set(a[0], a[1], a[2]); } toArray() { return [this.x, this.y, this.z]; }
}
class Box3 {
  constructor(a, b) { this.min = a || new Vector3(Infinity, Infinity, Infinity); this.max = b || new Vector3(-Infinity, -Infinity, -Infinity); }
  union(b) { this.min.min(b.min); this.max.max(b.max); return this; } clone() { return new Box3(this.min.clone(), this.max.clone()); }
  expandByObject(o) { o.traverse(c => { if (c.geometry) { c.geometry.computeBoundingBox(); this.union(c.geometry.boundingBox); } }); return this; }
  setFromObject(o) { this.min.set(Infinity, Infinity, Infinity); this.max.set(-Infinity, -Infinity, -Infinity); return this.expandByObject(o); }
  getSize(v) { return v.subVectors(this.max, this.min); } getCenter(v) { return v.addVectors(this.min, this.max).multiplyScalar(0.5); }
}
class Object3D {
  constructor() { this.children = []; this.position = new Vector3(); this.scale = new Vector3(1, 1, 1); this.visible = true; this.userData = {}; }
  add(...o) { for (const x of o) if (!this.children.includes(x)) this.children.push(x); return this; }
  remove(...o) { this.children = this.children.filter(c => !o.includes(c)); return this; }
  traverse(f) { f(this); this.children.forEach(c => c.traverse(f)); } localToWorld(v) { return v.add(this.position); } lookAt() {}
}
class Color { constructor() { this.setRGB(1, 1, 1); } setRGB(r, g, b) { this.r = r; this.g = g; this.b = b; return this; } }
class Material { constructor(p) { Object.assign(this, p); this.color = new Color(); } dispose() {} }
class Geometry { setFromPoints(p) { this.points = p.map(v => v.clone()); return this; } dispose() {} computeBoundingBox() {} }
class Sphere extends Geometry { constructor(r) { super(); this.radius = r; } }
class Mesh extends Object3D { constructor(g, m) { super(); this.geometry = g; this.material = m || new Material(); } }
class Line extends Object3D { constructor(g, m) { super(); this.geometry = g; this.material = m || new Material(); } }
class Sprite extends Object3D { constructor(m) { super(); this.material = m; this.center = {set(x, y) { this.x = x; this.y = y; }}; } }
class Texture { constructor(c) { this.image = c; } dispose() {} }
class Camera extends Object3D { constructor(fov, aspect) { super(); this.fov = fov; this.aspect = aspect; } updateProjectionMatrix() {} }
const stop = new Error("out of the model");
async function one(c) {
  const posted = [], handlers = {}, frames = [], loads = [], errors = [];
  let scenes = [], controls = [], views = [], size = null;
  class Scene extends Object3D { constructor() { super(); scenes.push(this); } }
  class Renderer { constructor() { this.domElement = {}; } setClearColor() {} setSize(w, h) { size = [w, h]; } render() {} setPixelRatio() {} }
  class Raycaster {
    constructor() { this.params = {Points: {}}; }
    setFromCamera(p, cam) { this.p = p; this.cam = cam; }
    intersectObject(o, rec) { if (!o) throw new TypeError("no object"); if (!rec) return []; return this.pick(); }
    intersectObjects(o, rec) { return this.intersectObject(o[0], rec); }
    pick() { if (Math.abs(this.p.x) > 0.75 || Math.abs(this.p.y) > 0.75) return [];
      const at = d => ({point: new Vector3(this.p.x * 1000, this.p.y * 1000, d), distance: d}); return [at(5), at(9)]; }
  }
  class Orbit { constructor(cam) { this.target = new Vector3(); this.cam = cam; controls.push(this); } update() {} addEventListener() {} }
  const part = (a, b) => { const m = new Mesh(new Geometry()); m.geometry.computeBoundingBox = function () { this.boundingBox = new Box3(new Vector3(...a), new Vector3(...b)); }; return m; };
  class Loader { load(u, f) { loads.push(u); const o = new Object3D(); o.add(part([-10, -4, 0], [10, 20, 30]), part([0, 0, -50], [100, 12, 10])); f(o); } }
  const THREE = {Vector3, Box3, Object3D, Group: Object3D, Color, Scene, WebGLRenderer: Renderer, PerspectiveCamera: Camera, PointLight: class extends Object3D {},
    AmbientLight: class extends Object3D {}, Raycaster, SphereGeometry: Sphere, Mesh, Line, LineBasicMaterial: Material, MeshBasicMaterial: Material, BufferGeometry: Geometry,
    Texture, CanvasTexture: Texture, SpriteMaterial: Material, Sprite, Vector2: class { constructor(x = 0, y = 0) { this.x = x; this.y = y; } set(x, y) { this.x = x; this.y = y; return this; } }};
  const viewport = {listeners: {}, appendChild() {}, addEventListener(k, f) { (this.listeners[k] = this.listeners[k] || []).push(f); },
    getBoundingClientRect() { const [left, top, width, height] = c.rect; return {left, top, width, height, x: left, y: top, right: left + width, bottom: top + height}; }};
  const canvas = () => { const t = []; const ctx = new Proxy({text: t, measureText() { return {width: 10}; }, fillText(s) { t.push(String(s)); }},
    {get: (o, k) => k in o ? o[k] : () => {}, set: (o, k, v) => { o["_" + String(k)] = v; return true; }}); return {getContext: () => ctx, text: t, width: 0, height: 0}; };
  const document = {createElement: canvas, getElementById: () => viewport};
  const window = {innerWidth: c.window[0], innerHeight: c.window[1], location: {href: "http://x/cad_view_1"}, l: {}, addEventListener(k, f) { (this.l[k] = this.l[k] || []).push(f); },
    requestAnimationFrame(f) { frames.push(f); }, setTimeout() {}};
  const ctx = {document, window, console: {log() {}, error() {}, warn() {}}, requestAnimFrame: f => window.requestAnimFrame(f), requestAnimationFrame: f => frames.push(f),
    fetch: (u, o) => { posted.push([u, JSON.parse(o.body)]); return {then() {}, catch() {}}; },
    EventSource: class { addEventListener(k, f) { handlers[k] = f; } close() {} }};
  ctx.globalThis = ctx; ctx.setTimeout = () => 0; ctx.URL = URL; ctx.structuredClone = structuredClone;
  vm.createContext(ctx);
  vm.runInContext(fs.readFileSync(web, "utf8"), ctx);
  const mod = new vm.SourceTextModule(fs.readFileSync(page, "utf8"), {context: ctx});
  const syn = o => { const m = new vm.SyntheticModule(Object.keys(o), function () { for (const k in o) this.setExport(k, o[k]); }, {context: ctx}); return m; };
  await mod.link(s => syn(s.includes("FBXLoader") ? {FBXLoader: Loader} : s.includes("OrbitControls") ? {OrbitControls: Orbit} : THREE));
  await mod.evaluate();
  window.l["load"].forEach(f => f({}));
  const scene = scenes[0], fixed = new Set(scene.children), marker = scene.children.filter(o => o instanceof Mesh && o.geometry instanceof Sphere)[0];
  const cam = scene.children.filter(o => o instanceof Camera)[0];
  const res = {init: posted.slice(), loads, steps: []};
  for (const [what, arg] of c.steps) {
    posted.length = 0; let prevented = false;
    try {
      if (what == "sync") handlers["sync"]({data: JSON.stringify(arg)});
      if (what == "move") handlers["move_camera"]({data: JSON.stringify(arg)});
      if (what == "resize") { [window.innerWidth, window.innerHeight] = arg; window.l["resize"].forEach(f => f({})); }
      if (what == "orbit") { cam.position.set(...arg); const f = frames.splice(0); f.forEach(g => g(0)); }
      if (what == "click") (viewport.listeners["pointerdown"] || viewport.listeners["mousedown"]).forEach(f => f({clientX: arg[0], clientY: arg[1], x: arg[0], y: arg[1],
        button: arg[2], ctrlKey: arg[3] == "ctrl" || arg[3] == "both", altKey: arg[3] == "alt" || arg[3] == "both", shiftKey: false, preventDefault() { prevented = true; }, stopPropagation() {}}));
    } catch (e) { errors.push(what + ": " + e); }
    const mine = scene.children.filter(o => !fixed.has(o));
    res.steps.push({posted: posted.slice(), size, aspect: cam.aspect, target: controls[0].target.toArray(), marker: marker.position.toArray(), errors: errors.splice(0),
      spheres: mine.filter(o => o instanceof Mesh).map(o => [o.position.toArray(), [o.material.color.r, o.material.color.g, o.material.color.b]]),
      lines: mine.filter(o => o instanceof Line).map(o => [o.geometry.points.map(p => p.toArray()), [o.material.color.r, o.material.color.g, o.material.color.b]]),
      labels: mine.filter(o => o instanceof Sprite).map(o => [o.material.map.image.text, o.position.toArray()]), cam: cam.position.toArray()});
  }
  return res;
}
(async () => { const out = []; for (const c of cases) out.push(await one(c)); fs.writeFileSync(process.argv[5], JSON.stringify(out)); })().catch(e => { console.error(e); process.exit(1); });
"""


def events():
    ann = {"0": {"coordinates": [1.0, 2.0, 3.0], "precision": 100, "color": [255, 0, 51]},
           "my_gcp": {"coordinates": [-40.0, 5.5, 9.0], "precision": 100, "color": [0, 102, 255], "reprojection": [-41.0, 5.0, 9.5]}}
    moved = {"0": {"coordinates": [10.0, 20.0, 30.0], "precision": 100, "color": [255, 0, 51], "reprojection": [11.0, 21.0, 31.0]}}
    third = {"constructor": {"coordinates": [0.0, 0.0, 0.5], "precision": 100, "color": [51, 51, 51]}, "my_gcp": dict(ann["my_gcp"], coordinates=[2.0, 2.0, 2.0])}
    out = [("sync", {"annotations": a, "selected_point": "0"}) for a in ({}, ann, moved, third)]
    out[3][1]["annotations"]["my_gcp"].pop("reprojection")
    out += [("move", {"x": 7.0, "y": -3.0, "z": 11.0}), ("resize", [900, 450]), ("orbit", [500.0, 400.0, -100.0])]
    clicks = [(110, 70), (400, 333), (30, 25), (599, 200)]
    out += [("click", [x, y, b, k]) for k in ("ctrl", "alt") for b in (0, 2) for x, y in clicks[: 4 if b == 0 else 1]]
    out += [("click", [400, 333, 0, ""]), ("click", [400, 333, 2, ""]), ("click", [400, 333, 1, "ctrl"])]
    return out


def page(ck, part, parts):
    ev = events()
    depth = 2 if ck.quick else 3
    layouts = [((0, 0, 800, 600), (800, 600)), ((20, 10, 600, 400), (800, 600))]
    cs = []
    for n, seq in enumerate(itertools.product(ev, repeat=depth)):
        if n % parts == part:
            for rect, win in layouts:
                cs.append({"rect": rect, "window": win, "steps": list(seq) + [("sync", ev[1][1])]})
    f = os.path.join(ck.scratch, "cad.json")
    json.dump(cs, open(f, "w"))
    js = os.path.join(ck.scratch, "cad.js")
    open(js, "w").write(PAGE)
    d = os.path.join(boot.REPO, "annotation_gui_gcp/js")
    o = os.path.join(ck.scratch, "cad.out")
    r = subprocess.run(["node", "--experimental-vm-modules", "--no-warnings", js, d + "/CADView.js", d + "/WebView.js", f, o], capture_output=True, text=True, timeout=600)
    if r.returncode:
        ck.fail("page-js", "the page of a CAD view fails: %s" % r.stderr[-1500:])
        return
    near = lambda a, b: len(a) == len(b) and all(abs(x - y) <= 1e-6 * (1 + abs(y)) for x, y in zip(a, b))  # noqa: E731
    for c, res in zip(cs, json.load(open(o))):
        ck.ev()
        ck.expect([m[1]["event"] for m in res["init"]] == ["init"] and res["loads"] == ["http://x/cad_view_1/model"], "page-init", "the page starts with %r, %r" % (res["init"], res["loads"]))
        ann, win, prev = {}, c["window"], None
        for (what, arg), got in zip(c["steps"], res["steps"]):
            say = lambda: "%r %r in %r" % (what, arg, c)  # noqa: E731
            ck.expect(not got["errors"], "page-raised", lambda: "%s: %r" % (say(), got["errors"]))
            if what == "sync":
                ann = arg["annotations"]
            if what == "resize":
                win = arg
            ck.expect(near(got["size"], win) and abs(got["aspect"] - win[0] / win[1]) < 1e-9, "page-size", lambda: "%s is shown in %r" % (say(), (got["size"], got["aspect"])))
            col = lambda a: [v / 255 for v in a["color"]]  # noqa: E731
            want = [(a["coordinates"], col(a)) for a in ann.values()]
            ck.expect(len(want) == len(got["spheres"]) and all(any(near(p, q) and near(k, l) for p, k in got["spheres"]) for q, l in want), "page-points",
                      lambda: "%s shows %r, not %r" % (say(), got["spheres"], want))
            want = [(a["coordinates"], a.get("reprojection") or a["coordinates"], col(a)) for a in ann.values()]
            ck.expect(len(want) == len(got["lines"]) and all(any(near(p[0], a) and near(p[-1], b) and near(k, l) for p, k in got["lines"]) for a, b, l in want), "page-lines",
                      lambda: "%s shows %r, not %r" % (say(), got["lines"], want))
            labels = {t[-1] if t else None: p for t, p in got["labels"]}
            ck.expect(len(got["labels"]) == len(ann) and set(labels) == set(ann), "page-labels", lambda: "%s has labels %r for %r" % (say(), got["labels"], list(ann)))
            if what in ("sync", "orbit"):  # labels stand between their point and the viewer
                for k, a in ann.items():
                    if k in labels:
                        v = [x - y for x, y in zip(got["cam"], a["coordinates"])]
                        n = sum(x * x for x in v) ** 0.5
                        w = [x - y for x, y in zip(labels[k], a["coordinates"])]
                        m = sum(x * x for x in w) ** 0.5
                        ck.expect(near([x * m for x in v], [x * n for x in w]), "page-labels", lambda: "%s: the label of %s is at %r" % (say(), k, labels[k]))
            msgs, hit = [], None
            if what == "click":
                x, y, b, key = arg
                l, t, w, h = c["rect"]
                u, v = (x - l) / w * 2 - 1, 1 - (y - t) / h * 2
                hit = [u * 1000, v * 1000, 5] if abs(u) <= 0.75 and abs(v) <= 0.75 else None
                if key == "ctrl" and b == 0 and hit:
                    msgs = [{"event": "add_or_update_point_observation", "xyz": hit}]
                if key == "ctrl" and b == 2:
                    msgs = [{"event": "remove_point_observation"}]
            ck.expect(same([q[1] for q in got["posted"]], msgs), "page-click", lambda: "%s sends %r, not %r" % (say(), got["posted"], msgs))
            look = None
            if what == "click" and arg[3] == "alt" and arg[2] == 0 and hit:
                look = hit
            if what == "move":
                look = [arg["x"], 20.0, arg["z"]]  # above the model
            if look:
                ck.expect(near(got["target"], look) and near(got["marker"], look), "page-look", lambda: "%s looks at %r, %r, not %r" % (say(), got["target"], got["marker"], look))
            elif prev:
                ck.expect(near(got["target"], prev["target"]) and near(got["marker"], prev["marker"]), "page-look", lambda: "%s moves the view to %r" % (say(), got["target"]))
            prev = got


def cases(ck):
    out = []
    for s in DOCS:
        out += [["bfs", s, 3 if ck.quick else 4, i] for i in range(len(Model(DOCS[s]).ops()))]
    parts = 2 if ck.quick else 16
    return out + [["places"], ["suitable"]] + [["page", i, parts] for i in range(parts)]


def check(ck, case):
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        {"bfs": bfs, "places": places, "suitable": suitable, "page": page}[case[0]](ck, *case[1:])
    except Exception as e:
        ck.fail("raised", "%r: %s: %s" % (case, type(e).__name__, e))
    finally:
        sys.stdout.close()
        sys.stdout = out
