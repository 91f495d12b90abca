export const EPSILON = 0.000001;
export const equals = (a, b) => Math.abs(a - b) <= EPSILON * Math.max(1.0, Math.abs(a), Math.abs(b));
