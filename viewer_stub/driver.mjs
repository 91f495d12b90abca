// runs cases given as JSON lines through the viewer's code and answers with what it shows
import {createInterface} from 'node:readline';

const el = () => ({children: [], classList: {_s: new Set(), add(...c) { c.forEach(x => this._s.add(x)); }, remove(...c) { c.forEach(x => this._s.delete(x)); }},
  appendChild(c) { this.children.push(c); }, addEventListener() {}, textContent: '', style: {},
  toBlob(f) { f({arrayBuffer: async () => new ArrayBuffer(3)}); }});
const keys = [];
globalThis.document = {createElement: el, body: el(), addEventListener: (t, f) => { if (t === 'keydown') keys.push(f); }};
globalThis.window = {document: globalThis.document, location: {protocol: 'http:', host: 'here:1234'}};
console.error = () => {};
process.on('unhandledRejection', () => {});

const {OpensfmDataProvider} = await import('./src/provider/OpensfmDataProvider.js');
const ids = await import('./src/util/ids.js');
const params = await import('./src/util/params.js');
const types = await import('./src/util/types.js');
const coords = await import('./src/util/coords.js');
const {EventEmitter} = await import('./src/util/EventEmitter.js');
const {ListController} = await import('./src/controller/ListController.js');
const {KeyController} = await import('./src/controller/KeyController.js');
const {StatsControl} = await import('./src/control/StatsControl.js');

const plain = a => JSON.parse(JSON.stringify(a, (k, v) => (v instanceof Float32Array ? Array.from(v) : typeof v === 'number' && !Number.isFinite(v) ? String(v) : v)));
const tick = () => new Promise(r => setImmediate(r));

async function show(p) {
  const d = p.data;
  const cells = {};
  for (const c of Object.keys(d.cells)) {
    cells[c] = (await p.getCoreImages(c)).images.map(i => i.id);
  }
  const im = Object.keys(d.images);
  const ents = await p.getImages(im);
  const spatial = await p.getSpatialImages(im.slice().reverse());
  const some = [(await p.getImages(['none', ...im, 'other'])), (await p.getSpatialImages(['none', ...im, 'other']))].map(x => x.filter(e => e.node).map(e => e.node_id));
  const meshes = {}, clusters = {}, sequences = {};
  for (const i of im) {
    meshes[i] = await p.getMesh(d.images[i].mesh.url);
    sequences[i] = await p.getSequence(d.images[i].sequence.id);
  }
  for (const c of Object.keys(d.clusters)) clusters[c] = await p.getCluster(c);
  const raw = {};
  for (const c of Object.keys(p.rawData)) raw[c] = {id: p.rawData[c].id, url: p.rawData[c].file.url, name: p.rawData[c].file.name, shots: Object.keys(p.rawData[c].cluster.shots ?? {})};
  return plain({cells, images: ents.map(e => [e.node_id, e.node]), spatial: spatial.map(e => [e.node_id, e.node.id]), meshes, clusters, sequences, raw, some, loaded: p.loaded, loading: p.loading});
}

const runs = {
  // a history of loads and additions
  async history(c) {
    const p = new OpensfmDataProvider({endpoint: 'http://here:1234', imagePath: c.imagePath});
    const log = [];
    p.on('load', () => log.push('load'));
    p.on('datacreate', e => log.push(['create', e.cellIds.slice().sort()]));
    p.on('opensfmdatacreate', e => log.push(['opensfm', Object.keys(e.data.clusters), Object.keys(e.rawData)]));
    const out = [];
    for (const [op, f] of c.ops) {
      const file = {data: structuredClone(c.files[f]), name: 'n' + f, url: 'u' + f, children: []};
      let r = 'ok';
      try {
        await p[op](file, false);
      } catch (e) {
        r = e instanceof ReferenceError ? 'broken' : 'refused';
      }
      out.push([r, Object.keys(p.data.images).sort(), Object.keys(p.data.clusters).sort(), log.splice(0)]);
    }
    return {steps: out, end: await show(p)};
  },
  // files fetched at once, answered in the order and batches given
  async fetched(c) {
    const waiting = {};
    globalThis.fetch = url => new Promise((ok, no) => { waiting[url] = {ok, no}; });
    const log = [];
    const paths = c.files.map((f, i) => 'r' + i + '.json');
    const p = new OpensfmDataProvider({endpoint: 'http://here:1234', imagePath: 'image', reconstructionPaths: paths});
    const ui = [];
    let first = null;
    p.on('load', () => { log.push('load'); });
    p.on('opensfmdatacreate', e => { log.push('create'); ui.push(...Object.keys(e.data.clusters)); });
    // as the viewer does
    new Promise(r => p.on('load', e => r(e.target))).then(t => { first = Object.keys(t.data.clusters); });
    const before = [p.loaded, p.loading];
    const busy = await p.load({data: structuredClone(c.spare), name: 's', url: 's', children: []}).then(() => 'ok', () => 'refused');
    const idle = [Object.keys(p.data.images).length, log.length];
    const early = p.getImages([]).then(() => Object.keys(p.data.images).length, () => 'failed');
    for (const batch of c.order) {
      for (const i of batch) {
        const w = waiting['http://here:1234/r' + i + '.json'];
        if (c.answer[i] === 'lost') w.no(new Error('no network'));
        else if (c.answer[i] === 'missing') w.ok({ok: false, json: async () => ({})});
        else w.ok({ok: true, json: async () => structuredClone(c.files[i])});
      }
      await tick();
    }
    await tick();
    const n = await early;
    const end = await show(p).catch(() => null);
    // when nothing came one can still choose a file, and otherwise only add
    const told = log.length;
    const late = await p.load({data: structuredClone(c.spare), name: 's', url: 's', children: []}).then(() => 'ok', () => 'refused');
    return {before, early: n, log: log.slice(0, told), ui, first, end, busy, idle, late: [late, Object.keys(p.data.clusters).length]};
  },
  async util(c) {
    const out = {};
    out.ids = c.pairs.map(([a, b]) => [ids.imageToUniqueID({clusterId: a, id: b}), ids.imageEntToUniqueID({cluster: {id: a}, id: b})]);
    out.back = out.ids.map(([u]) => [ids.uniqueIDToClusterID(u), ids.uniqueIDToImageID(u)]);
    out.hash = c.hashes.map(h => params.parseHash(h));
    out.options = c.hashes.map(h => params.createProviderOptions(params.parseHash(h)));
    out.types = c.data.map(d => types.isReconstructionData(d));
    out.coords = c.pixels.map(([x, y, w, h]) => coords.pixelToViewport([x, y], {offsetWidth: w, offsetHeight: h}));
    return plain(out);
  },
  // the list of reconstructions: adding, switching one, switching all
  async list(c) {
    const out = [];
    const emitter = new EventEmitter();
    emitter.on('sel', e => out.push(e.active.slice()));
    let label = null;
    const items = {};
    let bag = null;
    const folder = {add: (obj, key) => {
      if (key === 'toggle') return {name: t => { label = t; }};
      bag = obj;
      const o = {listen: () => o, onChange: f => { items[key] = f; return o; }};
      return o;
    }};
    const l = new ListController({eventType: 'sel', emitter, folder});
    const steps = [[null, label]];
    for (const [op, arg] of c.ops) {
      out.length = 0;
      let bad = false;
      try {
        if (op === 'add') l.addItems(arg);
        else if (op === 'all') l._config.toggle();
        else if (arg in items) { bag[arg] = !bag[arg]; items[arg](); }
      } catch (e) { bad = true; }
      steps.push([out.length ? out[out.length - 1] : null, label, bad]);
    }
    return steps;
  },
  async keys(c) {
    keys.length = 0;
    const emitter = new EventEmitter();
    const got = [];
    const eventTypes = Object.fromEntries(c.names.map(n => [n, n.toLowerCase()]));
    for (const n of c.names) emitter.on(n.toLowerCase(), e => got.push([e.type, e.visible ?? e.mode ?? e.size ?? null]));
    const config = structuredClone(c.config);
    const k = new KeyController({config, emitter, eventTypes});
    let own = 0;
    k.addCommand({key: 'p', value: 'x', handler: () => { own++; }});
    let twice = false;
    try { k.addCommand({key: 'c', value: 'x', handler: () => {}}); } catch (e) { twice = true; }
    try { k.addCommand({key: 'p', value: 'y', handler: () => {}}); twice = false; } catch (e) { /* refused */ }
    const steps = [];
    for (const [key, mod] of c.ops) {
      got.length = 0;
      for (const f of keys) f({key, altKey: mod === 'alt', ctrlKey: mod === 'ctrl', metaKey: mod === 'meta', shiftKey: mod === 'shift'});
      steps.push(got.slice());
    }
    return plain({steps, own, twice, config});
  },
  // pictures: those of the address, or an invented one
  async pictures(c) {
    const out = [];
    for (const [invent, answer] of c.asks) {
      globalThis.pictureOf = url => (answer === 'ok' ? Promise.resolve(new TextEncoder().encode(url).buffer) : Promise.reject(new Error('none')));
      const p = new OpensfmDataProvider({endpoint: 'http://here:1234', imagePath: 'image'});
      await p.load({data: structuredClone(c.file), name: 'n', url: 'u', children: []}, invent);
      const got = [];
      for (const u of ['http://here:1234/image/a.jpg', 'http://here:1234/image/b.jpg']) {
        got.push(await p.getImageBuffer(u).then(b => [b.byteLength, new TextDecoder().decode(b)], () => 'failed'));
        await tick();
      }
      out.push(got);
    }
    globalThis.pictureOf = null;
    return out;
  },
  async stats(c) {
    const s = new StatsControl({visible: true, provider: null});
    for (const r of c.adds) s.addRawData(r);
    return s.container.children.map(x => x.textContent);
  },
};

const rl = createInterface({input: process.stdin});
for await (const line of rl) {
  const c = JSON.parse(line);
  let r;
  try {
    r = await runs[c.run](c);
  } catch (e) {
    r = {raised: String(e && e.stack || e)};
  }
  process.stdout.write(JSON.stringify(r) + '\n');
}
process.exit(0);
