// stand-in for three's orbit controls: looks at its target, tells of changes
export class OrbitControls {
  constructor(object, domElement) { this.object = object; this.domElement = domElement; this.target = new object.position.constructor(); this.l = []; this.disposed = false; }
  addEventListener(t, f) { this.l.push(f); }
  removeEventListener(t, f) { this.l = this.l.filter(g => g !== f); }
  dispose() { this.disposed = true; }
  update() {
    const off = this.object.position.clone().sub(this.target), len = Math.hypot(...off.toArray());
    const want = Math.max(this.minDistance ?? 0, Math.min(this.maxDistance ?? Infinity, len));
    if (len > 0 && Math.abs(want - len) > 1e-9 * len) this.object.position.copy(this.target.clone().add(off.multiplyScalar(want / len)));
    const k = [...this.object.position.toArray(), ...this.target.toArray()].join();
    this.object.lookAt(this.target);
    if (k !== this.k) { this.k = k; for (const f of this.l) f({type: 'change', target: this}); }
  }
}
