// stand-in for what the viewer uses of three
export const DoubleSide = 2;
export class Vector2 { constructor(x = 0, y = 0) { this.x = x; this.y = y; } set(x, y) { this.x = x; this.y = y; return this; } copy(v) { return this.set(v.x, v.y); } }
export class Vector3 {
  constructor(x = 0, y = 0, z = 0) { this.x = x; this.y = y; this.z = z; }
  set(x, y, z) { this.x = x; this.y = y; this.z = z; return this; }
  setX(x) { this.x = x; return this; } setY(y) { this.y = y; return this; } setZ(z) { this.z = z; return this; }
  copy(v) { return this.set(v.x, v.y, v.z); }
  clone() { return new Vector3(this.x, this.y, this.z); }
  fromArray(a, o = 0) { return this.set(a[o], a[o + 1], a[o + 2]); }
  toArray() { return [this.x, this.y, this.z]; }
  add(v) { return this.set(this.x + v.x, this.y + v.y, this.z + v.z); }
  addVectors(a, b) { return this.set(a.x + b.x, a.y + b.y, a.z + b.z); }
  sub(v) { return this.set(this.x - v.x, this.y - v.y, this.z - v.z); }
  subVectors(a, b) { return this.set(a.x - b.x, a.y - b.y, a.z - b.z); }
  multiplyScalar(s) { return this.set(this.x * s, this.y * s, this.z * s); }
  divideScalar(s) { return this.multiplyScalar(1 / s); }
  negate() { return this.multiplyScalar(-1); }
  addScaledVector(v, s) { return this.set(this.x + v.x * s, this.y + v.y * s, this.z + v.z * s); }
  lerpVectors(a, b, t) { return this.set(a.x + (b.x - a.x) * t, a.y + (b.y - a.y) * t, a.z + (b.z - a.z) * t); }
  dot(v) { return this.x * v.x + this.y * v.y + this.z * v.z; }
  cross(v) { return this.set(this.y * v.z - this.z * v.y, this.z * v.x - this.x * v.z, this.x * v.y - this.y * v.x); }
  crossVectors(a, b) { return this.copy(a).cross(b); }
  length() { return Math.hypot(this.x, this.y, this.z); }
  lengthSq() { return this.dot(this); }
  distanceTo(v) { return Math.hypot(this.x - v.x, this.y - v.y, this.z - v.z); }
  normalize() { return this.divideScalar(this.length() || 1); }
  setFromMatrixPosition(m) { const e = m.elements; return this.set(e[12], e[13], e[14]); }
  applyMatrix4(m) {
    const e = m.elements, {x, y, z} = this, w = 1 / (e[3] * x + e[7] * y + e[11] * z + e[15]);
    return this.set((e[0] * x + e[4] * y + e[8] * z + e[12]) * w, (e[1] * x + e[5] * y + e[9] * z + e[13]) * w, (e[2] * x + e[6] * y + e[10] * z + e[14]) * w);
  }
}
export class Euler { constructor(x = 0, y = 0, z = 0) { this.x = x; this.y = y; this.z = z; } set(x, y, z) { this.x = x; this.y = y; this.z = z; return this; } fromArray(a) { return this.set(a[0], a[1], a[2]); } }
export class Matrix4 {
  constructor() { this.elements = [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]; }
  identity() { this.elements = new Matrix4().elements; return this; }
  copy(m) { this.elements = m.elements.slice(); return this; }
  clone() { return new Matrix4().copy(this); }
  fromArray(a, o = 0) { this.elements = Array.from({length: 16}, (_, i) => a[i + o]); return this; }
  toArray() { return this.elements.slice(); }
  multiplyMatrices(p, q) {
    const a = p.elements, b = q.elements, o = [];
    for (let c = 0; c < 4; c++) for (let r = 0; r < 4; r++) { let s = 0; for (let k = 0; k < 4; k++) s += a[4 * k + r] * b[4 * c + k]; o[4 * c + r] = s; }
    this.elements = o; return this;
  }
  multiply(m) { return this.multiplyMatrices(this, m); }
  premultiply(m) { return this.multiplyMatrices(m, this); }
  makeTranslation(x, y, z) { this.identity(); this.elements[12] = x; this.elements[13] = y; this.elements[14] = z; return this; }
  makeRotationFromEuler(e) {
    const rot = (c, s, i, j) => { const m = new Matrix4(); m.elements[5 * i] = c; m.elements[5 * j] = c; m.elements[4 * j + i] = -s; m.elements[4 * i + j] = s; return m; };
    const x = rot(Math.cos(e.x), Math.sin(e.x), 1, 2), y = rot(Math.cos(e.y), Math.sin(e.y), 2, 0), z = rot(Math.cos(e.z), Math.sin(e.z), 0, 1);
    return this.copy(x.multiply(y).multiply(z));
  }
  invert() {
    const a = Array.from({length: 4}, (_, r) => [...Array.from({length: 4}, (_, c) => this.elements[4 * c + r]), ...Array.from({length: 4}, (_, c) => +(c === r))]);
    for (let i = 0; i < 4; i++) {
      let p = i;
      for (let r = i; r < 4; r++) if (Math.abs(a[r][i]) > Math.abs(a[p][i])) p = r;
      if (a[p][i] === 0) { this.elements = Array(16).fill(0); return this; }
      [a[i], a[p]] = [a[p], a[i]];
      const d = a[i][i];
      a[i] = a[i].map(v => v / d);
      for (let r = 0; r < 4; r++) if (r !== i) { const f = a[r][i]; a[r] = a[r].map((v, k) => v - f * a[i][k]); }
    }
    for (let r = 0; r < 4; r++) for (let c = 0; c < 4; c++) this.elements[4 * c + r] = a[r][4 + c];
    return this;
  }
}
export class Object3D {
  constructor() { this.children = []; this.parent = null; this.position = new Vector3(); this.up = new Vector3(0, 1, 0); this.matrix = new Matrix4(); this.matrixWorld = new Matrix4(); this.matrixAutoUpdate = true; this.turn = new Matrix4(); this.visible = true; }
  add(...os) { for (const o of os) { if (o.parent) o.parent.remove(o); o.parent = this; this.children.push(o); } return this; }
  remove(...os) { for (const o of os) { const i = this.children.indexOf(o); if (i >= 0) { o.parent = null; this.children.splice(i, 1); } } return this; }
  clear() { for (const o of this.children) o.parent = null; this.children.length = 0; return this; }
  traverse(f) { f(this); for (const c of this.children) c.traverse(f); }
  applyMatrix4(m) { this.matrix.premultiply(m); this.position.setFromMatrixPosition(this.matrix); return this; }
  updateMatrixWorld() { if (this.matrixAutoUpdate) { this.matrix.copy(this.turn); const e = this.matrix.elements; e[12] = this.position.x; e[13] = this.position.y; e[14] = this.position.z; } this.matrixWorld.copy(this.matrix); }
}
export class Scene extends Object3D {}
export class Group extends Object3D {}
export class Mesh extends Object3D { constructor(geometry, material) { super(); this.geometry = geometry; this.material = material; } }
class Light extends Object3D { constructor(color, intensity) { super(); this.color = color; this.intensity = intensity; } }
export class AmbientLight extends Light {}
export class DirectionalLight extends Light {}
class Owned { constructor() { this.disposed = 0; } dispose() { this.disposed++; } }
export class Material extends Owned { constructor(o = {}) { super(); Object.assign(this, o); } clone() { return Object.assign(new this.constructor({}), this); } }
export class MeshBasicMaterial extends Material {}
export class MeshPhongMaterial extends Material {}
export class ShaderMaterial extends Material {}
export class BufferGeometry extends Owned { constructor() { super(); this.attributes = {}; } setAttribute(k, v) { this.attributes[k] = v; return this; } setIndex(i) { this.index = i; return this; } }
export class Float32BufferAttribute { constructor(a, n) { this.array = Float32Array.from(a); this.itemSize = n; } }
export class PlaneGeometry extends BufferGeometry { constructor(width = 1, height = 1) { super(); this.parameters = {width, height}; } }
export class ConeGeometry extends BufferGeometry { constructor(radius, height) { super(); this.parameters = {radius, height}; } }
export class CylinderGeometry extends BufferGeometry { constructor(a, b, height) { super(); this.parameters = {height}; } }
export class SphereGeometry extends BufferGeometry {}
export class TextureLoader { load(url, f) { const t = Object.assign(new Owned(), {url}); if (f) f(t); return t; } }
export class Camera extends Object3D { constructor() { super(); this.matrixWorldInverse = new Matrix4(); this.projectionMatrix = new Matrix4(); this.projectionMatrixInverse = new Matrix4(); }
  updateMatrixWorld(force) { super.updateMatrixWorld(force); this.matrixWorldInverse.copy(this.matrixWorld).invert(); }
  lookAt(t) {
    const z = this.position.clone().sub(t).normalize(), x = new Vector3().crossVectors(this.up, z).normalize(), y = new Vector3().crossVectors(z, x);
    this.turn.fromArray([x.x, x.y, x.z, 0, y.x, y.y, y.z, 0, z.x, z.y, z.z, 0, 0, 0, 0, 1]);
  } }
export class PerspectiveCamera extends Camera { constructor(fov, aspect, near, far) { super(); Object.assign(this, {fov, aspect, near, far}); this.updateProjectionMatrix(); }
  updateProjectionMatrix() {
    const f = 1 / Math.tan(this.fov * Math.PI / 360), {near: n, far} = this;
    this.projectionMatrix.fromArray([f / (this.aspect || 1), 0, 0, 0, 0, f, 0, 0, 0, 0, (far + n) / (n - far), -1, 0, 0, 2 * far * n / (n - far), 0]);
    this.projectionMatrixInverse.copy(this.projectionMatrix).invert();
  } }
export class WebGLRenderer { constructor(o) { this.o = o; } resetState() {} render(scene, camera) { globalThis.drawn?.push(scene); } }
export class Raycaster { set(o, d) { this.o = o.clone(); this.d = d.clone(); }
  intersectObject(m) { // the plane of the mesh
    const a = m.geometry.attributes.position.array, z = a[2];
    const t = (z - this.o.z) / this.d.z, x = this.o.x + t * this.d.x, y = this.o.y + t * this.d.y, r = Math.max(...a.map(Math.abs));
    return t > 0 && Math.abs(x) <= r && Math.abs(y) <= r ? [{point: new Vector3(x, y, z)}] : [];
  } }
