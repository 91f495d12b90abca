"""C31: the annotation tool edits exactly the control points and observations one asks for, and files keep them."""
import contextlib
import copy
import itertools
import json
import os
import shutil
import signal
import subprocess
import sys
import types

import boot

LEVEL = "model_checking"
RULE = ("breadth-first search over the sequences of requests a browser can send to the tool (add, delete, select point; annotate, "
        "re-annotate, remove annotation in two views; save; load), from several ground_control_points.json, against a written model; "
        "states: model states, transitions: requests sent to the Flask application")
ASSUMPTIONS = ["CAD views need rasterio, which is not installed: their server side is not run, 3D observations are in the files only",
               "stand-ins for the packages magic and rasterio, and for the package name mapillary.opensfm of the repository"]

DOC = {"points": [{"position": {"latitude": 52.519, "altitude": 14.946, "longitude": 13.4}, "id": "my_gcp", "observations": []}]}
RICH = {"points": [
    {"id": "0", "observations": [{"shot_id": "a.jpg", "projection": [0.25, -0.125], "precision": 0.5}],
     "position": {"latitude": 1.5, "longitude": -2.5, "horizontal_std": 3.0, "measured_at": 1600000000, "altitude": 4.0, "vertical_std": 0.5}},
    {"id": "2", "observations": [{"shot_id": "b.jpg", "projection": [0.0, 0.0]}, {"shot_id": "model.fbx", "point": [1.0, 2.0, 3.0], "precision": 100},
                                 {"shot_id": "elsewhere.jpg", "projection": [-0.5, 0.375], "precision": 0.25}]},
    {"id": "p", "observations": [], "position": {"latitude": -10.0, "longitude": 20.0, "measured_at": 0}}]}
FILES = {"none": None, "documented": DOC, "rich": RICH}
SEQS = {"s1": ["a.jpg", "b.jpg"], "s2": ["c.jpg"]}
XY = {"u": [0.1, 0.2], "v": [-0.3, 0.0]}


def stub():
    if "mapillary" in sys.modules:
        return
    for name, attrs in (("magic", {"Magic": lambda **k: None}), ("rasterio", {})):
        try:
            __import__(name)
        except ImportError:
            m = types.ModuleType(name)
            m.__dict__.update(attrs)
            sys.modules[name] = m
    for name, path in (("mapillary", None), ("mapillary.opensfm", boot.REPO)):
        m = types.ModuleType(name)
        m.__path__ = [path] if path else []
        sys.modules[name] = m


def tool(path):
    stub()
    from flask import Flask
    from mapillary.opensfm.annotation_gui_gcp.lib import GUI
    from mapillary.opensfm.annotation_gui_gcp.lib.gcp_manager import GroundControlPointManager
    from mapillary.opensfm.annotation_gui_gcp.lib.image_manager import ImageManager
    app = Flask("tool", template_folder=os.path.join(boot.REPO, "annotation_gui_gcp/templates"))
    app.testing = True
    GUI.Gui(app, GroundControlPointManager(path), ImageManager(copy.deepcopy(SEQS), path))
    return app


@contextlib.contextmanager
def limit():
    """There is a message for every request when it is answered, so none for long is none at all."""
    def late(*_):
        raise TimeoutError("a view gets no message")
    old = signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, 6)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Session:
    """One browser with all panes open."""

    def __init__(self, path):
        self.client = tool(path).test_client()
        # werkzeug's client waits for the first message when it opens a stream
        assert self.client.post("/tools/postdata", json={"event": "init"}).status_code == 200
        self.views = {r: self.stream(r) for r in ("/tools", "/sequence_view_1", "/sequence_view_2", "/current_cp_view")}
        self.first = {k: self.message(it) for k, it in self.views.items()}

    def stream(self, pane):
        with limit():
            return iter(self.client.get(pane + "/stream", buffered=False).response)

    @staticmethod
    def take(it):
        with limit():
            m = next(it)
        return m.decode() if isinstance(m, bytes) else m

    @staticmethod
    def message(it):
        m = Session.take(it)
        assert m.startswith("event: sync\ndata: "), m
        return json.loads(m.split("data: ", 1)[1])

    def send(self, pane, data):
        r = self.client.post(pane + "/postdata", json=data)
        if r.status_code != 200:
            raise RuntimeError("status %d" % r.status_code)
        return {k: self.message(it) for k, it in self.views.items()}


# the model: what is in the tool, and in the file -------------------------------
def parse(doc):
    pts = {}
    for p in doc["points"]:
        geo = p.get("position")
        if geo:
            geo = dict(geo)
            geo.setdefault("horizontal_std", 100)
        obs = []
        for o in p.get("observations", []):
            o = dict(o)
            if "projection" in o:
                o.setdefault("precision", 0.004)
            obs.append(o)
        pts[p["id"]] = {"geo": geo or None, "obs": obs}
    return pts


def unparse(pts):
    out = []
    for k, p in pts.items():
        d = {"id": k, "observations": p["obs"]}
        if p["geo"]:
            d["position"] = p["geo"]
        out.append(d)
    return out


class Model:
    def __init__(self, doc):
        self.file = copy.deepcopy(doc)
        self.pts = parse(doc) if doc else {}
        self.cur = None

    def canon(self):
        return json.dumps([self.file, unparse(self.pts), self.cur])

    def ops(self):
        out = [("add",), ("del",), ("save",), ("load",), ("init",)] + [("select", p) for p in self.pts]
        if self.cur is not None:
            for view, images in ((1, SEQS["s1"]), (2, SEQS["s2"])):
                for im in images:
                    out += [("mark", view, im, w, self.cur) for w in ("u", "v")] + [("unmark", view, im, self.cur)]
            seen = [o["shot_id"] for o in self.pts[self.cur]["obs"]]
            out += [("unmark", 0, im, self.cur) for im in seen]
            # a click that was sent while another point was active
            out += [("mark", 1, "a.jpg", "u", p) for p in list(self.pts)[:2] if p != self.cur]
        return out

    def apply(self, op, new_id=None):
        if op[0] == "add":
            self.pts[new_id] = {"geo": None, "obs": []}
            self.cur = new_id
        elif op[0] == "del":
            if self.cur is not None:
                del self.pts[self.cur]
                self.cur = None
        elif op[0] == "select":
            self.cur = op[1]
        elif op[0] == "save":
            self.file = {"points": copy.deepcopy(unparse(self.pts))}
        elif op[0] == "load":
            if self.file is not None:
                self.pts = parse(copy.deepcopy(self.file))
                if self.cur not in self.pts:
                    self.cur = None
        elif op[0] in ("mark", "unmark") and op[-1] == self.cur:
            p = self.pts[self.cur]
            p["obs"] = [o for o in p["obs"] if o["shot_id"] != op[2]]
            if op[0] == "mark":
                p["obs"].append({"shot_id": op[2], "projection": XY[op[3]], "precision": 0.004})


def request(op):
    if op[0] in ("add", "del"):
        return "/tools", {"event": op[0] + "CP", "data": {}}
    if op[0] in ("save", "load"):
        return "/tools", {"event": op[0], "data": {}}
    if op[0] == "init":
        return "/sequence_view_1", {"event": "init"}
    if op[0] == "select":
        return "/tools", {"event": "select_cp", "point_id": op[1]}
    pane = "/sequence_view_%d" % op[1] if op[1] else "/current_cp_view"
    if op[0] == "mark":
        return pane, {"event": "add_or_update_point_observation", "point_id": op[4], "norm_precision": 0.004, "xy": XY[op[3]], "image_id": op[2]}
    return pane, {"event": "remove_point_observation", "image_id": op[2], "point_id": op[3]}


def coords(o):
    return list(o.get("projection") or o.get("point")) + [o.get("precision")]


def visible(m, images):
    return {im: {k: coords(o) for k, p in m.pts.items() for o in p["obs"] if o["shot_id"] == im} for im in images}


def clean(p):
    """points as the tool gives them, positions without their empty entries"""
    out = []
    for q in p:
        q = dict(q)
        if "position" in q:
            q["position"] = {k: v for k, v in q["position"].items() if v is not None}
        out.append(q)
    return out


def compare(ck, m, got, path, where):
    t = got["/tools"]
    ck.expect(clean(t["points"]) == unparse(m.pts), "points", "%s the points are\n%r\ninstead of\n%r" % (where, t["points"], unparse(m.pts)))
    for k, v in got.items():
        ck.expect(v["selected_point"] == m.cur, "selected", "%s %s shows point %r as selected instead of %r" % (where, k, v["selected_point"], m.cur))
    for k, images in (("/sequence_view_1", SEQS["s1"]), ("/sequence_view_2", SEQS["s2"])):
        ck.expect(list(got[k]["points"]) == images and got[k]["points"] == visible(m, images), "view",
                  "%s %s shows %r instead of %r" % (where, k, got[k]["points"], visible(m, images)))
        ck.expect(set(got[k]["colors"]) == set(m.pts), "colors", "%s colors for %r" % (where, got[k]["colors"]))
    mine = [o["shot_id"] for o in m.pts[m.cur]["obs"]] if m.cur is not None else []
    known = SEQS["s1"] + SEQS["s2"]
    mine = [i for i in mine if i not in known] + [i for i in mine if i in known]
    v = got["/current_cp_view"]["points"]
    ck.expect(list(v) == mine and v == visible(m, mine), "finder", "%s the view of the point shows %r instead of %r" % (where, v, visible(m, mine)))
    f = os.path.join(path, "ground_control_points.json")
    doc = json.load(open(f)) if os.path.isfile(f) else None
    if doc is not None:
        doc = {"points": clean(doc["points"])}
    ck.expect(doc == m.file, "file", "%s the file has\n%r\ninstead of\n%r" % (where, doc, m.file))


def put(path, doc):
    os.makedirs(os.path.join(path, "images"), exist_ok=True)
    for im in ("a.jpg", "b.jpg", "c.jpg"):
        open(os.path.join(path, "images", im), "w").close()
    f = os.path.join(path, "ground_control_points.json")
    if doc is None:
        if os.path.exists(f):
            os.remove(f)
    else:
        json.dump(doc, open(f, "w"))


def run(ck, start, ops):
    """Replays a history from the start; (model, False if something failed)"""
    path = os.path.join(ck.scratch, "d")
    put(path, FILES[start])
    m = Model(FILES[start])
    where = "start with %s, %r:" % (start, ops)
    try:
        s = Session(path)
        for i, op in enumerate(ops):
            before = list(m.pts)
            got = s.send(*request(op))
            new = None
            if op[0] == "add":
                new = [p["id"] for p in got["/tools"]["points"]][-1:]
                new = new[0] if new else None
                ck.expect(new is not None and new not in before, "new-id", "%s the new point has id %r, there were %r" % (where, new, before))
            m.apply(op, new)
            if i == len(ops) - 1 or i == 0:
                compare(ck, m, got, path, where)
    except Exception as e:
        ck.fail("raised", "%s %s: %s" % (where, type(e).__name__, e))
        return m, False
    return m, True


def cases(ck):
    out = []
    for s in FILES:
        out += [["bfs", s, 4 if ck.quick else 5, i] for i in range(len(Model(FILES[s]).ops()))]
        out += [["bfs", s, 0, 0]]
    out += [["worst", n] for n in range(4)] + [["lists"], ["pages"], ["groups"], ["manager"]]
    return out


def bfs(ck, start, depth, first):
    if depth == 0:
        put(os.path.join(ck.scratch, "d"), FILES[start])
        s = Session(os.path.join(ck.scratch, "d"))
        m = Model(FILES[start])
        compare(ck, m, s.first, os.path.join(ck.scratch, "d"), "start with %s" % start)
        compare(ck, m, s.send("/tools", {"event": "init"}), os.path.join(ck.scratch, "d"), "start with %s" % start)
        ck.state([start, m.canon()])
        ck.transition()
        return
    frontier = [[Model(FILES[start]).ops()[first]]]
    seen = set()
    for d in range(depth):
        nxt = []
        for h in frontier:
            m, ok = run(ck, start, h)
            ck.transition()
            ck.add("traces")
            if not ok:
                return
            c = m.canon()
            ck.state([start, c])
            if c in seen:
                continue
            seen.add(c)
            nxt += [h + [op] for op in m.ops()]
        if ck.violations:
            return
        frontier = nxt
    ck.sample("start %s, last history %r" % (start, h))


def manager(path):
    stub()
    from mapillary.opensfm.annotation_gui_gcp.lib.gcp_manager import GroundControlPointManager
    return GroundControlPointManager(path)


def worst(ck, n):
    """All tables of reprojection errors of two points in two images, then all removals of one observation."""
    pts, shots = ["0", "gone"], ["a.jpg", "b.jpg"]
    cells = [(p, s) for p in ["0", "1", "gone"] for s in shots]
    for errs in itertools.product((None, 0, 1.5, 3), repeat=len(cells) - 1):
        errs = errs[:1] + ((None, 0, 1.5, 3)[n],) + errs[1:]
        table = {}
        for (p, s), e in zip(cells, errs):
            if e is not None:
                table.setdefault(p, {})[s] = {"error": e}
        g = manager(ck.scratch)
        for k in range(2):
            g.add_point()
        g.add_point_observation("0", "a.jpg", (0.0, 0.0), 1.0)
        f = os.path.join(ck.scratch, "r.json")
        json.dump(table, open(f, "w"))
        g.load_gcp_reprojections(f)
        for removed in (False, True):
            if removed:
                g.remove_point_observation("0", "a.jpg", False)
                if "a.jpg" in table.get("0", {}):
                    table["0"]["a.jpg"]["error"] = 0
            ck.ev()
            top = {p: max([x["error"] for x in v.values()] + [0]) for p, v in table.items() if p in ("0", "1")}
            best = max(list(top.values()) + [0])
            w = g.get_worst_gcp()
            ck.expect((w is None and best == 0) or (best > 0 and top.get(w) == best), "worst", "worst of %r is %r" % (table, w))
            for p, v in table.items():
                for sel in ([], ["a.jpg"], ["b.jpg", "x"], ["a.jpg", "b.jpg"]):
                    e = {s: v[s]["error"] for s in sel if s in v}
                    got = g.shot_with_max_gcp_error(sel, p)
                    ck.expect(got is None if not e else e.get(got) == max(e.values()), "worst-shot", "worst shot of %r in %r of %r: %r" % (p, sel, table, got))
    g.load_gcp_reprojections(f + "none")
    ck.expect(g.get_worst_gcp() is None, "worst", "errors without a file")


NODE = r"""
const fs = require("fs"), vm = require("vm");
const [tools, web, cases] = [process.argv[2], process.argv[3], JSON.parse(fs.readFileSync(process.argv[4]))];
function element(tag) {
  const el = {tag, style: {}, listeners: {}, _value: undefined, children: [],
    addEventListener(k, f) { (this.listeners[k] = this.listeners[k] || []).push(f); },
    remove(i) { options.splice(i, 1); }, appendChild(o) { options.push(o); }, add(o) { options.push(o); },
    replaceChildren(...o) { options.length = 0; options.push(...o); },
    set innerHTML(v) { options.length = 0; }, get length() { return options.length; },
    get selectedIndex() { return options.selectedIndex; }, set selectedIndex(i) { options.selectedIndex = i; }};
  if (tag == "select") {
    var options = []; options.add = o => options.push(o); options.remove = i => options.splice(i, 1);
    options.selectedIndex = -1; el.options = options;
    Object.defineProperty(el, "value", {get() { const o = options[options.selectedIndex]; return o ? o.value : ""; },
      set(v) { options.selectedIndex = options.findIndex(o => String(o.value) === String(v)); }});
  }
  return el;
}
const out = [];
for (const c of cases) {
  const els = {}, handlers = {}, posted = [];
  const document = {createElement: t => element(t), getElementById: id => els[id] = els[id] || element(id == "pointListBox" ? "select" : "button")};
  const window = {location: {href: "http://x/tools"}, l: {}, addEventListener(k, f) { this.l[k] = f; }};
  const ctx = {document, window, console: {log() {}}, JSON, Object, Array, Set, Map, String, Number,
    fetch: (u, o) => { posted.push([u, JSON.parse(o.body)]); return {then() {}, catch() {}}; },
    EventSource: class { constructor() {} addEventListener(k, f) { handlers[k] = f; } close() {} }};
  ctx.globalThis = ctx; vm.createContext(ctx);
  vm.runInContext(fs.readFileSync(web) + "\n" + fs.readFileSync(tools), ctx);
  window.l["DOMContentLoaded"](); window.l["load"]();
  const res = {init: posted.slice(), shown: [], selected: [], buttons: []};
  for (const sync of c) {
    handlers["sync"]({data: JSON.stringify(sync)});
    const box = els["pointListBox"];
    res.shown.push([box.options.map(o => String(o.value)), String(box.value)]);
    const sel = [];
    for (let i = 0; i < box.options.length; i++) {
      box.options.selectedIndex = i; posted.length = 0;
      box.listeners["change"].forEach(f => f({})); sel.push(posted.map(p => p[1]));
    }
    res.selected.push(sel);
  }
  for (const b of ["addCP", "delCP", "save", "load"]) { posted.length = 0; els[b].onclick({}); res.buttons.push(posted.map(p => p[1])); }
  out.push(res);
}
console.log(JSON.stringify(out));
"""


def lists(ck):
    """The pane with the list of points, in a stand-in for a browser: all pairs of successive lists."""
    ids = ["0", "1", "my_gcp"]
    sels = [list(p) for n in range(4) for p in itertools.permutations(ids, n)]
    syncs = [{"points": [{"id": i, "observations": []} for i in s], "selected_point": cur} for s in sels for cur in [None] + s]
    cs = [[a, b] for a in syncs for b in syncs]
    f = os.path.join(ck.scratch, "cases.json")
    json.dump(cs, open(f, "w"))
    js = os.path.join(ck.scratch, "dom.js")
    open(js, "w").write(NODE)
    d = os.path.join(boot.REPO, "annotation_gui_gcp/js")
    r = subprocess.run(["node", js, d + "/ToolsView.js", d + "/WebView.js", f], capture_output=True, text=True, timeout=120)
    if r.returncode:
        ck.fail("list-js", "the list of points fails: %s" % r.stderr[-1500:])
        return
    for c, res in zip(cs, json.loads(r.stdout)):
        ck.ev()
        for sync, (shown, cur), sel in zip(c, res["shown"], res["selected"]):
            want = [p["id"] for p in sync["points"]]
            ck.expect(shown == want, "list", "the list shows %r for the points %r" % (shown, want))
            ck.expect(sync["selected_point"] is None or cur == sync["selected_point"], "list-selected", "the list has %r selected for %r" % (cur, sync))
            for i, msgs in zip(want, sel):
                ck.expect([(m["event"], m["point_id"]) for m in msgs] == [("select_cp", i)], "list-select", "choosing %r sends %r" % (i, msgs))
        ck.expect([[m["event"] for m in b] for b in res["buttons"]] == [["addCP"], ["delCP"], ["save"], ["load"]], "buttons", "the buttons send %r" % (res["buttons"],))


PAGE = r"""
const fs = require("fs"), vm = require("vm");
const [page, web, cases] = [process.argv[2], process.argv[3], JSON.parse(fs.readFileSync(process.argv[4]))];
function select() {
  const options = []; options.selectedIndex = -1;
  options.add = o => options.push(o);
  options.remove = i => { options.splice(i, 1); if (options.selectedIndex == i) options.selectedIndex = -1; else if (options.selectedIndex > i) options.selectedIndex--; };
  const el = {style: {}, listeners: {}, options, offsetWidth: 60, addEventListener(k, f) { (this.listeners[k] = this.listeners[k] || []).push(f); },
    remove(i) { options.remove(i); }, add(o) { options.push(o); }, appendChild(o) { options.push(o); },
    replaceChildren(...o) { options.length = 0; options.selectedIndex = -1; options.push(...o); },
    get length() { return options.length; }, get selectedIndex() { return options.selectedIndex; }, set selectedIndex(i) { options.selectedIndex = i; },
    get value() { const o = options[options.selectedIndex]; return o ? o.value : ""; }, set value(v) { options.selectedIndex = options.findIndex(o => o.value === v); }};
  return el;
}
const out = [];
for (const c of cases) {
  const posted = [], handlers = {}; let drawn = null; const circles = []; let path = null;
  const list = select();
  const context = {font: "", beginPath() { path = null; }, arc(x, y, r) { path = [x, y, r]; }, stroke() { if (path) circles.push([...path, this.strokeStyle]); },
    fill() {}, fillText(t) {}, measureText() { return {width: 10}; }, fillRect() { circles.length = 0; drawn = null; }, clearRect() { circles.length = 0; drawn = null; },
    drawImage(i, x, y, w, h) { drawn = [i.src, x, y, w, h]; }, save() {}, restore() {}};
  const canvas = {width: 1, height: 1, listeners: {}, getContext() { return context; }, addEventListener(k, f) { (this.listeners[k] = this.listeners[k] || []).push(f); },
    getBoundingClientRect() { return {left: c.rect[0], top: c.rect[1], x: c.rect[0], y: c.rect[1]}; }};
  context.canvas = canvas;
  class Image { constructor() { this.width = 0; this.height = 0; this._src = ""; }
    set src(u) { this._src = u; const k = decodeURIComponent(u.split("?")[0].split("/").pop()); [this.width, this.height] = c.sizes[k] || [0, 0];
      if (c.sizes[k] && this.onload) this.onload({}); }
    get src() { return this._src; } }
  const document = {createElement: t => ({style: {}}), getElementById: id => id == "imgCanvas" ? canvas : list};
  const window = {innerWidth: c.window[0], innerHeight: c.window[1], location: {href: "http://x/sequence_view_1"}, l: {}, addEventListener(k, f) { this.l[k] = f; }};
  const ctx = {document, window, Image, console: {log() {}}, URL, encodeURIComponent, decodeURIComponent,
    XMLHttpRequest: class { open(m, u) { this.u = u; } send() { this.responseURL = c.redirect ? this.u + "?r" : this.u; if (this.onload) this.onload(); } },
    fetch: (u, o) => { posted.push([u, JSON.parse(o.body)]); return {then() {}, catch() {}}; },
    EventSource: class { addEventListener(k, f) { handlers[k] = f; } close() {} }};
  ctx.globalThis = ctx; vm.createContext(ctx);
  vm.runInContext(fs.readFileSync(web) + "\n" + fs.readFileSync(page), ctx);
  window.l["DOMContentLoaded"](); window.l["load"]();
  const res = {init: posted.slice(), steps: []};
  for (const [what, arg] of c.steps) {
    posted.length = 0;
    if (what == "sync") handlers["sync"]({data: JSON.stringify(arg)});
    if (what == "choose") { list.options.selectedIndex = arg; list.listeners["change"].forEach(f => f({})); }
    if (what == "wheel") (canvas.listeners["mousewheel"] || canvas.listeners["wheel"]).forEach(f => f({deltaY: arg}));
    if (what == "resize") { [window.innerWidth, window.innerHeight] = arg; window.l["resize"]({}); }
    if (what == "click") canvas.listeners["mousedown"].forEach(f => f({button: arg[2], x: arg[0], y: arg[1], clientX: arg[0], clientY: arg[1]}));
    res.steps.push({posted: posted.slice(), drawn, circles: circles.slice(), size: [canvas.width, canvas.height], list: list.options.map(o => o.value), cur: list.value});
  }
  out.push(res);
}
console.log(JSON.stringify(out));
"""


def pages(ck):
    """The page of a sequence in a stand-in for a browser: shown points are where they were marked, clicks mark the pixel under them."""
    ims = ["a.jpg", "b c.jpg", "d.jpg"]
    sizes = {"a.jpg": [640, 480], "b c.jpg": [300, 400], "d.jpg": [500, 500]}
    obs = [{}, {"0": [0.25, -0.125, 0.004]}, {"0": [-0.5, 0.375, 0.01], "my_gcp": [0.0, 0.0, 0.02]}, {"my_gcp": [0.3, 0.3, 0.004]}]
    colors = {"0": "#111111", "my_gcp": "#222222"}
    syncs = []
    for sub in ([0, 1, 2], [1], [2, 0]):
        for r in range(3):
            for sel in (None, "0"):
                syncs.append({"points": {ims[i]: obs[(i + r) % 4] for i in sub}, "selected_point": sel, "colors": colors})
    cs = []
    for k, (s1, s2) in enumerate(itertools.product(syncs, syncs)):
        rect = [(0, 0), (8, 5)][k % 2]
        n1 = len(s1["points"])
        steps = [("sync", s1), ("choose", k % n1), ("sync", s2)]
        if len(s2["points"]) > 1:
            steps += [("choose", k % len(s2["points"])), ("wheel", 1 if k % 3 else -1)]
        steps += [("resize", [700 + 100 * (k % 3), 900]), ("click", [rect[0] + 100, rect[1] + 80, 0]), ("click", [rect[0] + 33, rect[1] + 61, 2]), ("sync", s1)]
        cs.append({"sizes": sizes, "rect": rect, "window": [1000 - 250 * (k % 2), 700], "redirect": k % 5 == 0, "steps": steps})
    f = os.path.join(ck.scratch, "pages.json")
    json.dump(cs, open(f, "w"))
    js = os.path.join(ck.scratch, "page.js")
    open(js, "w").write(PAGE)
    d = os.path.join(boot.REPO, "annotation_gui_gcp/js")
    r = subprocess.run(["node", js, d + "/ImageView.js", d + "/WebView.js", f], capture_output=True, text=True, timeout=300)
    if r.returncode:
        ck.fail("page-js", "the page of a sequence fails: %s" % r.stderr[-1500:])
        return
    near = lambda a, b: abs(a - b) <= 1e-6 * (1 + abs(b))  # noqa: E731
    for c, res in zip(cs, json.loads(r.stdout)):
        ck.ev()
        ck.expect([m[1]["event"] for m in res["init"]] == ["init"], "page-init", "the page starts with %r" % (res["init"],))
        sync, cur = None, None
        for (what, arg), got in zip(c["steps"], res["steps"]):
            say = lambda: "%r %r in %r" % (what, arg, c)  # noqa: E731
            if what == "sync":
                sync = arg
                if cur not in sync["points"]:
                    cur = None
            shown = list(sync["points"])
            ck.expect(got["list"] == shown, "page-list", lambda: "%s lists %r" % (say(), got["list"]))
            if what == "choose":
                cur = shown[arg]
            if what == "wheel":
                i = shown.index(cur) + (-1 if arg > 0 else 1)
                cur = shown[i] if 0 <= i < len(shown) else cur
            if cur is None:
                ck.expect(got["drawn"] is None and not got["circles"] and got["cur"] == "", "page-none", lambda: "without an image, %s shows %r" % (say(), got))
            else:
                w, h = sizes[cur]
                sc = min(got["size"][0] / w, got["size"][1] / h)
                ck.expect(got["cur"] == cur and got["drawn"] is not None and got["drawn"][0].split("?")[0].rsplit("/", 1)[1].replace("%20", " ") == cur
                          and all(near(x, y) for x, y in zip(got["drawn"][1:], (0, 0, w * sc, h * sc))), "page-image", lambda: "%s shows %r for %r" % (say(), got["drawn"], cur))
                m = max(w, h)
                want = {p: ((w / 2 + o[0] * m) * sc, (h / 2 + o[1] * m) * sc, o[2] * m * sc, colors[p]) for p, o in sync["points"][cur].items()}
                for p, (x, y, rad, col) in want.items():
                    mine = [q for q in got["circles"] if near(q[0], x) and near(q[1], y) and q[3] == col]
                    ck.expect(any(near(q[2], 3 * rad) for q in mine), "page-point", lambda: "%s: %r is not shown at %r: %r" % (say(), p, (x, y, rad), got["circles"]))
                ck.expect(all(any(near(q[0], x) and near(q[1], y) for x, y, _, _ in want.values()) for q in got["circles"]), "page-point",
                          lambda: "%s shows %r instead of %r" % (say(), got["circles"], want))
            if what != "click":
                ck.expect(not got["posted"], "page-quiet", lambda: "%s sends %r" % (say(), got["posted"]))
            elif cur is not None:
                sel = sync["selected_point"]
                msgs = [q[1] for q in got["posted"]]
                if sel is None:
                    ck.expect(not msgs, "page-quiet", lambda: "a click without point sends %r" % (msgs,))
                elif arg[2] == 0:
                    x, y = [((arg[i] - c["rect"][i]) / sc - sizes[cur][i] / 2) / max(sizes[cur]) for i in (0, 1)]
                    ck.expect(len(msgs) == 1 and msgs[0]["event"] == "add_or_update_point_observation" and msgs[0]["point_id"] == sel and msgs[0]["image_id"] == cur
                              and near(msgs[0]["xy"][0], x) and near(msgs[0]["xy"][1], y) and msgs[0]["norm_precision"] > 0, "page-click", lambda: "%s sends %r, not %r" % (say(), msgs, (x, y)))
                else:
                    ck.expect(len(msgs) == 1 and msgs[0]["event"] == "remove_point_observation" and msgs[0]["point_id"] == sel and msgs[0]["image_id"] == cur,
                              "page-remove", lambda: "%s sends %r" % (say(), msgs))


def groups(ck):
    """Images of the views: all sequence files over present and missing images."""
    stub()
    import importlib
    main = importlib.import_module("mapillary.opensfm.annotation_gui_gcp.main")
    from pathlib import Path
    names = ["a.jpg", "b.jpg", "c.jpg"]
    path = os.path.join(ck.scratch, "g")
    for present in itertools.chain.from_iterable(itertools.combinations(names, n) for n in range(4)):
        shutil.rmtree(path, ignore_errors=True)
        os.makedirs(path + "/images")
        for n in present:
            open(path + "/images/" + n, "w").close()
        for one in itertools.chain.from_iterable(itertools.permutations(names, n) for n in range(4)):
            for two in ((), ("c.jpg",), ("b.jpg", "a.jpg")):
                db = {"one": list(one), "two": list(two)}
                json.dump(db, open(path + "/sequence_database.json", "w"))
                for skip in (True, False):
                    ck.ev()
                    try:
                        got = main.load_sequence_database_from_file(Path(path), skip_missing=skip)
                        got = [(k, list(v)) for k, v in got.items()]
                    except FileNotFoundError:
                        got = "missing"
                    want = [(k, [i for i in v if i in present]) for k, v in db.items()]
                    want = [x for x in want if x[1]]
                    if not skip and any(i not in present for v in db.values() for i in v):
                        want = "missing"
                    ck.expect(got == want, "groups", "views of %r with images %r (skip missing %r): %r" % (db, present, skip, got))
                    ck.outcome(repr(want))
    ck.expect(main.load_sequence_database_from_file(Path(ck.scratch)) is None, "groups", "sequences without a file")


def observations(n):
    obs = [None, {"shot_id": "a.jpg", "projection": [0.25, 0.5], "precision": 0.01}, {"shot_id": "a.jpg", "projection": [0.0, 0.0]},
           {"shot_id": "a.jpg", "point": [1.0, -2.0, 0.0], "precision": 7}, {"shot_id": "a.jpg", "point": [0.0, 0.0, 0.0]},
           {"shot_id": "b.jpg", "projection": [-0.5, 0.25], "precision": 0}]
    return obs


def manager_files(ck):
    """All files of two points over observations and positions: loading and writing keeps every value."""
    g = manager(ck.scratch)
    opt = [("altitude", 0.0), ("altitude", -3.5), ("horizontal_std", 2.0), ("vertical_std", 0.0), ("measured_at", 0), ("measured_at", 17)]
    geos = [None]
    for n in range(5):
        for sel in itertools.combinations(opt, n):
            if len({k for k, _ in sel}) == n:
                geos.append(dict(sel, latitude=0.0, longitude=12.5))
    src, dst = os.path.join(ck.scratch, "in.json"), os.path.join(ck.scratch, "out.json")
    for geo in geos:
        for o1 in observations(0):
            for o2 in observations(0):
                obs = [o for o in (o1, o2) if o]
                doc = {"points": [dict({"id": "x"}, **({"position": geo} if geo else {}), **({"observations": obs} if obs else {})),
                                  {"id": "0", "observations": [{"shot_id": "c.jpg", "projection": [0.1, 0.1], "precision": 1}]}]}
                json.dump(doc, open(src, "w"))
                ck.ev()
                try:
                    g.load_from_file(src)
                    g.write_to_file(dst)
                    got = clean(json.load(open(dst))["points"])
                    want = clean(unparse(parse(doc)))
                    for p in want:
                        p["observations"] = [dict(o, precision=o.get("precision")) for o in p["observations"]]
                    ck.expect(got == want, "keeps", "loading and writing %r gives %r" % (doc, got))
                    ck.outcome(repr(got))
                except Exception as e:
                    ck.fail("keeps", "loading and writing %r raises %s: %s" % (doc, type(e).__name__, e))
    # adding observations with a position, as the views of models and maps do
    for geo in geos:
        for xy in ((0.25, 0.5), (1.0, 2.0, 3.0), [0.0, 0.0]):
            ck.ev()
            g = manager(ck.scratch)
            g.add_point()
            g.add_point()
            try:
                g.add_point_observation("1", "m", xy, 5.0, geo)
            except Exception as e:
                ck.fail("geo", "an observation at %r with position %r raises %s: %s" % (xy, geo, type(e).__name__, e))
                continue
            d = clean(g.points_to_json())
            want = {"id": "1", "observations": [{"shot_id": "m", "projection" if len(xy) == 2 else "point": list(xy), "precision": 5.0}]}
            if geo:
                want["position"] = dict({"horizontal_std": 100}, **geo)
            ck.expect(d == [{"id": "0", "observations": []}, want], "geo", "an observation at %r with position %r gives %r" % (xy, geo, d))
            g.remove_point_observation("1", "other", False)
            ck.expect(clean(g.points_to_json()) == d, "geo", "removing an absent observation changes the point")
            g.remove_point_observation("1", "m", False)
            want["observations"] = []
            ck.expect(clean(g.points_to_json())[1] == want, "geo", "removing an observation gives %r" % (g.points_to_json(),))
            g.remove_point_observation("1", "m", True)
            want.pop("position", None)
            ck.expect(clean(g.points_to_json())[1] == want, "geo", "removing the position gives %r" % (g.points_to_json(),))


def check(ck, case):
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        if case[0] == "bfs":
            bfs(ck, *case[1:])
        elif case[0] == "worst":
            worst(ck, case[1])
        elif case[0] == "lists":
            lists(ck)
        elif case[0] == "pages":
            pages(ck)
        elif case[0] == "groups":
            groups(ck)
        else:
            manager_files(ck)
    except TimeoutError as e:
        ck.fail("raised", "%r: %s" % (case, e))
    finally:
        sys.stdout.close()
        sys.stdout = out
