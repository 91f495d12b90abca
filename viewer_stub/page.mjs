// runs histories of what one does with the viewer's page and answers with what it shows
import {createInterface} from 'node:readline';

class El {
  constructor(tag) { this.tag = tag; this.children = []; this.parentNode = null; this.textContent = ''; this.style = {}; this.l = {}; this.c = new Set(); this.attributes = {};
    this.classList = {add: (...c) => c.forEach(x => this.c.add(x)), remove: (...c) => c.forEach(x => this.c.delete(x)), contains: x => this.c.has(x), toggle: (x, on) => ((on ?? !this.c.has(x)) ? this.c.add(x) : this.c.delete(x))}; }
  appendChild(x) { if (x.parentNode) x.parentNode.removeChild(x); x.parentNode = this; this.children.push(x); return x; }
  append(...xs) { xs.forEach(x => this.appendChild(x)); }
  removeChild(x) { const i = this.children.indexOf(x); if (i < 0) throw new Error('not a child'); this.children.splice(i, 1); x.parentNode = null; return x; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  after(x) { this.followers = this.followers || []; this.followers.push(x); x.parentNode = this; }
  before() {}
  contains(x) { return x === this || this.children.some(c => c.contains(x)); }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { return this.children[this.children.length - 1] ?? null; }
  setAttribute(k, v) { this.attributes[k] = v; } removeAttribute(k) { delete this.attributes[k]; }
  addEventListener(t, f) { (this.l[t] = this.l[t] || new Set()).add(f); }
  removeEventListener(t, f) { this.l[t]?.delete(f); }
  dispatch(t, e) { for (const f of [...(this.l[t] || [])]) f(Object.assign({type: t, target: this, preventDefault() {}}, e)); }
  getBoundingClientRect() { return {left: 0, top: 0, width: 640, height: 480}; }
  get offsetWidth() { return 640; } get offsetHeight() { return 480; } get offsetLeft() { return 0; } get offsetTop() { return 0; }
  toBlob(f) { f({arrayBuffer: async () => new ArrayBuffer(3)}); }
}
const doc = {createElement: t => new El(t), body: null, l: {}, addEventListener(t, f) { (this.l[t] = this.l[t] || new Set()).add(f); }, removeEventListener(t, f) { this.l[t]?.delete(f); }};
globalThis.document = doc;
globalThis.window = {document: doc, location: {protocol: 'http:', host: 'here:1234'}, addEventListener() {}, removeEventListener() {}, setTimeout: f => f()};
globalThis.FileReader = class { constructor() { this.l = {}; } addEventListener(t, f) { this.l[t] = f; } readAsText(f) { setImmediate(() => (f.bad ? this.l.error(new Error('unreadable')) : this.l.load({target: {result: f.text}}))); } };
console.error = console.warn = console.log = () => {};
let unhandled = [];
process.on('unhandledRejection', e => { unhandled.push(String(e && e.stack || e)); });

const {OpensfmDataProvider} = await import('./src/provider/OpensfmDataProvider.js');
const {OpensfmViewer} = await import('./src/ui/OpensfmViewer.js');
const {OrbitCameraControls} = await import('./src/ui/OrbitCameraControls.js');
const {Viewer} = await import('./node_modules/mapillary-js/dist/mapillary.module.js');
const {GUI} = await import('./node_modules/dat.gui/build/dat.gui.module.js');
const three = await import('./node_modules/three/build/three.module.js');

const tick = async (n = 3) => { for (let i = 0; i < n; i++) await new Promise(r => setImmediate(r)); };
const controlsOf = g => [...g.controls, ...g.folders.flatMap(controlsOf)];
const all = (e, f) => [...(f(e) ? [e] : []), ...e.children.flatMap(c => all(c, f))];

function scenes(viewer) {
  globalThis.drawn = [];
  if (viewer.reference) for (const r of viewer.renderers) r.render({}, new three.Matrix4().elements, new three.Matrix4().elements);
  const out = {axes: [], earth: [], tiles: [], stale: 0};
  for (const s of globalThis.drawn) s.traverse(o => {
    if (!(o instanceof three.Mesh)) return;
    if (o.material.disposed || o.geometry.disposed || o.material.map?.disposed) out.stale++;
    if (o.geometry instanceof three.ConeGeometry) out.axes.push([o.material.color, o.position.toArray()]);
    if (o.material instanceof three.ShaderMaterial) out.earth.push(o.material.uniforms.uMouse ? ['mouse', o.material.uniforms.uMouseIntersecting.value, o.material.uniforms.uMouse.value.x, o.material.uniforms.uMouse.value.y] : ['still']);
    if (o.material instanceof three.MeshBasicMaterial && o.material.map?.url) out.tiles.push([o.material.map.url, ...o.position.toArray(), o.geometry.parameters.width, o.geometry.parameters.height, o.material.opacity]);
  });
  globalThis.drawn = null;
  return out;
}

const runs = {
  async page(c) {
    doc.body = new El('body'); doc.l = {}; GUI.made.length = 0; unhandled = [];
    const served = c.served;
    const fetched = [], pending = [];
    globalThis.fetch = async url => {
      url = String(url); fetched.push(url);
      if (url === 'items') {
        if (c.late) { const ok = await new Promise(r => pending.push(r)); if (!ok) throw new Error('no network'); }
        return {ok: true, json: async () => ({items: structuredClone(c.items)})};
      }
      const k = url.split('/').pop();
      if (!(k in served)) throw new Error('no network');
      return {ok: true, json: async () => structuredClone(served[k])};
    };
    const params = c.params ?? {};
    const provider = new OpensfmDataProvider({endpoint: 'http://here:1234', imagePath: 'image', reconstructionPaths: c.files});
    const page = new OpensfmViewer({container: new El('div'), params, provider});
    page.initialize();
    await tick();
    const viewer = Viewer.last, gui = GUI.made[GUI.made.length - 1];
    if (c.reference) viewer.setReference(c.reference);
    let bad = null;
    for (const [op, ...a] of c.ops) {
      const before = viewer.rerenders, was = c.redraw ? JSON.stringify(scenes(viewer)) : '';
      if (op === 'key') for (const f of doc.l.keydown || []) f({key: a[0], altKey: false, ctrlKey: false, metaKey: false, shiftKey: false});
      else if (op === 'menu') { const k = controlsOf(gui).find(x => x.key === a[0]); if (!k) { bad = 'no menu for ' + a[0]; break; } k.obj[k.key] = a[1]; if (k.changed) k.changed(a[1]); }
      else if (op === 'press') { const k = controlsOf(gui).find(x => x.key === a[0]); if (!k) { bad = 'no button for ' + a[0]; break; } const r = k.obj[k.key](); if (a[0] !== 'loadFiles') await r; }
      else if (op === 'reference') viewer.setReference(a[0]);
      else if (op === 'image') viewer.fire('image', {image: {id: a[0], clusterId: a[0].split('|')[0], image: {src: 'src of ' + a[0]}}});
      else if (op === 'mouse') viewer.fire('mousemove', {pixelPoint: a[0]});
      else if (op === 'look') { globalThis.drawn = []; if (viewer.reference) for (const r of viewer.renderers) r.render({}, a[0], a[1]); globalThis.drawn = null; }
      else if (op === 'choose') for (const n of a[0]) all(doc.body, e => e.textContent === n && e.l.click).forEach(e => e.dispatch('click'));
      else if (op === 'submit') all(doc.body, e => e.textContent === 'Submit').forEach(e => e.dispatch('click'));
      else if (op === 'pick') all(doc.body, e => e.tag === 'label').forEach(e => e.dispatch('change', {target: {files: a[0]}}));
      else if (op === 'drop') all(doc.body, e => e.tag === 'div' && e.l.drop).forEach(e => e.dispatch('drop', {dataTransfer: {items: a[0].map(f => ({kind: f.kind ?? 'file', getAsFile: () => f}))}}));
      else if (op === 'exit') all(doc.body, e => e.c.has('opensfm-file-exit-button')).forEach(e => e.dispatch('click'));
      else if (op === 'deliver') { const r = pending.shift(); if (r) r(a[0]); }
      await tick(['deliver', 'choose', 'submit', 'pick', 'drop', 'press', 'exit'].includes(op) || a[0] === 'p' ? 4 : 1);
      if (c.redraw && JSON.stringify(scenes(viewer)) !== was && op !== 'reference' && viewer.rerenders === before) { bad = 'nothing is drawn again after ' + op + ' ' + JSON.stringify(a); break; }
    }
    if (c.late) { while (pending.length) { pending.shift()(true); await tick(4); } }
    const cls = x => all(doc.body, e => e.c.has('opensfm-file-select-' + x)).map(e => e.textContent);
    const listed = {items: cls('item'), categories: cls('category'), submit: cls('submit'), selected: cls('selected'), inactive: cls('inactive').length};
    const panels = {};
    let width = null;
    for (const f of viewer.getContainer().followers || []) {
      width = f.style.width;
      for (const p of f.children) {
        const texts = all(p, e => e.textContent).map(e => e.textContent);
        const img = all(p, e => e.tag === 'img')[0];
        const popup = all(p, e => e.tag === 'span').find(e => e.l.pointerenter);
        panels[texts[0]] = {hidden: p.c.has('opensfm-hidden'), texts: texts.slice(1), src: img ? img.src ?? null : undefined};
        if (popup) { popup.dispatch('pointerenter'); panels[texts[0]].popup = all(p, e => e.c.has('opensfm-popup')).flatMap(e => e.children.map(x => x.textContent)); }
      }
    }
    const menus = Object.fromEntries(controlsOf(gui).map(k => [k.key, {value: typeof k.obj[k.key] === 'function' ? null : k.obj[k.key], label: k.label, args: k.args}]));
    const sc = scenes(viewer);
    const out = {bad, spatial: viewer.spatial, active: [...viewer.active].sort(), controls: viewer.controls, filter: viewer.filter, moves: viewer.moves, panels, width, menus, closed: gui.closed,
      clusters: Object.keys(provider.data.clusters), raw: Object.values(provider.rawData).map(r => r.file.name), open: doc.body.children.length, listed, sc, unhandled};
    if (!c.tiles) { sc.tiles = sc.tiles.length; }
    return out;
  },
  async orbit(c) {
    const told = [], proj = [];
    const el = new El('div');
    const viewer = {getContainer: () => el};
    const o = new OrbitCameraControls();
    o.onAnimationFrame(viewer, 0);
    o.onAttach(viewer, m => told.push(Array.from(m)), m => proj.push(Array.from(m)));
    o.onActivate(viewer, c.view, new three.Matrix4().elements, c.refs[0]);
    const start = told[told.length - 1] ?? null;
    for (const r of c.refs.slice(1)) { o.onReference(viewer, r); o.onAnimationFrame(viewer, 1); }
    const end = told[told.length - 1] ?? null;
    const n = told.length;
    o.onResize(viewer);
    o.onDeactivate(viewer);
    o.onAnimationFrame(viewer, 2);
    o.onDetach(viewer);
    return {start, end, proj: proj.length, more: told.length - n};
  },
};

const rl = createInterface({input: process.stdin});
for await (const line of rl) {
  const c = JSON.parse(line);
  let r;
  try {
    r = await runs[c.run](c);
  } catch (e) {
    r = {raised: String(e && e.stack || e)};
  }
  process.stdout.write(JSON.stringify(r) + '\n');
}
process.exit(0);
