// stand-in for what the viewer uses of gl-matrix
export function create() { const m = new Float32Array(16); m[0] = m[5] = m[10] = m[15] = 1; return m; }
export const clone = a => Float32Array.from(a);
export function identity(o) { o.set(create()); return o; }
export function fromRotation(o, rad, axis) {
  let [x, y, z] = axis;
  let l = Math.hypot(x, y, z);
  if (l < 1e-6) return null;
  x /= l; y /= l; z /= l;
  const s = Math.sin(rad), c = Math.cos(rad), t = 1 - c;
  o.set([x * x * t + c, y * x * t + z * s, z * x * t - y * s, 0, x * y * t - z * s, y * y * t + c, z * y * t + x * s, 0,
    x * z * t + y * s, y * z * t - x * s, z * z * t + c, 0, 0, 0, 0, 1]);
  return o;
}
export function scale(o, a, v) {
  for (let k = 0; k < 3; k++) for (let i = 0; i < 4; i++) o[4 * k + i] = a[4 * k + i] * v[k];
  for (let i = 12; i < 16; i++) o[i] = a[i];
  return o;
}
export function transpose(o, a) { const b = clone(a); for (let i = 0; i < 4; i++) for (let j = 0; j < 4; j++) o[4 * i + j] = b[4 * j + i]; return o; }
export function multiply(o, a, b) {
  const x = clone(a), y = clone(b);
  for (let c = 0; c < 4; c++) for (let r = 0; r < 4; r++) { let s = 0; for (let k = 0; k < 4; k++) s += x[4 * k + r] * y[4 * c + k]; o[4 * c + r] = s; }
  return o;
}
export const mul = multiply;
