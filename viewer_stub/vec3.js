// stand-in for what the viewer uses of gl-matrix
export const create = () => new Float32Array(3);
export const clone = a => Float32Array.from(a);
export const fromValues = (x, y, z) => Float32Array.of(x, y, z);
export const dot = (a, b) => a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
export function scale(o, a, s) { for (let i = 0; i < 3; i++) o[i] = a[i] * s; return o; }
export function sub(o, a, b) { for (let i = 0; i < 3; i++) o[i] = a[i] - b[i]; return o; }
export const subtract = sub;
export function add(o, a, b) { for (let i = 0; i < 3; i++) o[i] = a[i] + b[i]; return o; }
export function negate(o, a) { for (let i = 0; i < 3; i++) o[i] = -a[i]; return o; }
export const length = a => Math.hypot(a[0], a[1], a[2]);
export function normalize(o, a) { const l = length(a); for (let i = 0; i < 3; i++) o[i] = l > 0 ? a[i] / l : 0; return o; }
export function cross(o, a, b) {
  const [x, y, z] = a, [u, v, w] = b;
  o[0] = y * w - z * v; o[1] = z * u - x * w; o[2] = x * v - y * u;
  return o;
}
export function transformMat4(o, a, m) {
  const [x, y, z] = a;
  const w = (m[3] * x + m[7] * y + m[11] * z + m[15]) || 1.0;
  for (let i = 0; i < 3; i++) o[i] = (m[i] * x + m[4 + i] * y + m[8 + i] * z + m[12 + i]) / w;
  return o;
}
