// stand-in for what the viewer uses of mapillary-js
export class DataProviderBase {
  constructor(geometry) { this._geometry = geometry; this._handlers = {}; }
  on(type, f) { (this._handlers[type] = this._handlers[type] || []).push(f); }
  fire(type, e) { for (const f of this._handlers[type] || []) f(e); }
}
export class S2GeometryProvider {
  constructor(level) { this._level = level; }
  lngLatToCellId(p) { return Math.floor(p.lng * 2000) + ':' + Math.floor(p.lat * 2000); }
}
export function fetchArrayBuffer(url) { return globalThis.pictureOf ? globalThis.pictureOf(url) : Promise.reject(new Error('none')); }
const A = 6378137.0, E2 = 0.00669437999014;
function ecef(lng, lat, alt) {
  const a = lat * Math.PI / 180, o = lng * Math.PI / 180;
  const n = A / Math.sqrt(1 - E2 * Math.sin(a) ** 2);
  return [(n + alt) * Math.cos(a) * Math.cos(o), (n + alt) * Math.cos(a) * Math.sin(o), (n * (1 - E2) + alt) * Math.sin(a)];
}
export function enuToGeodetic(x, y, z, lng, lat, alt) {
  const a = lat * Math.PI / 180, o = lng * Math.PI / 180;
  const c = ecef(lng, lat, alt);
  const sa = Math.sin(a), ca = Math.cos(a), so = Math.sin(o), co = Math.cos(o);
  const X = c[0] - so * x - sa * co * y + ca * co * z, Y = c[1] + co * x - sa * so * y + ca * so * z, Z = c[2] + ca * y + sa * z;
  const p = Math.hypot(X, Y);
  let la = Math.atan2(Z, p * (1 - E2)), h = 0;
  for (let i = 0; i < 12; i++) {
    const n = A / Math.sqrt(1 - E2 * Math.sin(la) ** 2);
    h = p / Math.cos(la) - n;
    la = Math.atan2(Z, p * (1 - E2 * n / (n + h)));
  }
  return [Math.atan2(Y, X) * 180 / Math.PI, la * 180 / Math.PI, h];
}
const two = o => { for (const k of Object.keys(o)) o[o[k]] = k; return o; };
export const CameraVisualizationMode = two({Hidden: 0, Homogeneous: 1, Cluster: 2, ConnectedComponent: 3, Sequence: 4});
export const OriginalPositionMode = two({Hidden: 0, Altitude: 1, Flat: 2});
export const CameraControls = two({Custom: 0, Earth: 1, Street: 2});

export function geodeticToEnu(lng, lat, alt, rlng, rlat, ralt) {
  const a = rlat * Math.PI / 180, o = rlng * Math.PI / 180;
  const p = ecef(lng, lat, alt), r = ecef(rlng, rlat, ralt);
  const d = [p[0] - r[0], p[1] - r[1], p[2] - r[2]];
  const sa = Math.sin(a), ca = Math.cos(a), so = Math.sin(o), co = Math.cos(o);
  return [-so * d[0] + co * d[1], -sa * co * d[0] - sa * so * d[1] + ca * d[2], ca * co * d[0] + ca * so * d[1] + sa * d[2]];
}
export const RenderMode = two({Letterbox: 0, Fill: 1});
// remembers what it is told
export class Viewer {
  constructor(o) {
    this.options = o; this.spatial = Object.assign({}, o.component.spatial); this.active = new Set(Object.keys(o.component).filter(k => o.component[k])); this.controls = o.cameraControls;
    this.filter = null; this.moves = []; this.rerenders = 0; this.renderers = []; this.handlers = {}; this.reference = null;
    Viewer.last = this;
  }
  attachCustomCameraControls(c) { this.custom = c; }
  getComponent(n) { return {defaultConfiguration: {cameraSize: 0.1, cellsVisible: false, pointSize: 0.1, pointsVisible: true, other: 3}, configure: c => Object.assign(this.spatial, c)}; }
  getContainer() { return this.options.container; }
  getCanvas() { return {}; }
  addCustomRenderer(r) { this.renderers.push(r); if (this.reference) r.onAdd(this, this.reference, {}); }
  on(t, f) { (this.handlers[t] = this.handlers[t] || []).push(f); }
  fire(t, e) { for (const f of this.handlers[t] || []) f(e); }
  moveTo(id) { this.moves.push(id); return Promise.resolve({id}); }
  activateComponent(n) { this.active.add(n); }
  deactivateComponent(n) { this.active.delete(n); }
  setCameraControls(c) { this.controls = c; this.rerenders++; }
  setFilter(f) { this.filter = f; return Promise.resolve(); }
  triggerRerender() { this.rerenders++; }
  setReference(r) {
    const first = !this.reference;
    this.reference = r;
    for (const x of this.renderers) { if (first) x.onAdd(this, r, {}); else x.onReferenceChanged(this, r); }
  }
}
