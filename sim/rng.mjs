// Seeded PRNG (sfc32). Every random choice of a simulated run derives from one.
function hashStr(s) {
  let h1 = 0xdeadbeef, h2 = 0x41c6ce57;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    h1 = Math.imul(h1 ^ c, 2654435761);
    h2 = Math.imul(h2 ^ c, 1597334677);
  }
  h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
  h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
  return [h1 >>> 0, h2 >>> 0];
}
export class Rng {
  constructor(label) {
    this.label = String(label);
    const [a, b] = hashStr(this.label), [c] = hashStr('x' + this.label);
    this.a = a; this.b = b; this.c = c; this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  int(n) { return n <= 1 ? 0 : Math.floor((this.u32() / 4294967296) * n); }
  range(lo, hi) { return lo + this.int(hi - lo + 1); }
  f() { return this.u32() / 4294967296; }
  chance(p) { return this.f() < p; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(pairs) {
    let tot = 0;
    for (const [, w] of pairs) tot += w;
    let x = this.f() * tot;
    for (const [v, w] of pairs) { x -= w; if (x < 0) return v; }
    return pairs[pairs.length - 1][0];
  }
  u64() { return (BigInt(this.u32()) << 32n) | BigInt(this.u32()); }
  bytes(n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = this.u32() & 255; return b; }
  fork(label) { return new Rng(this.label + '/' + label); }
}
// 53-bit-ish content hash used for histories
export function hashBytes(b) {
  let h1 = 0x811c9dc5 ^ b.length, h2 = 0x1b873593;
  for (let i = 0; i < b.length; i++) {
    h1 = Math.imul(h1 ^ b[i], 16777619);
    h2 = Math.imul((h2 ^ b[i]) + 0x9e37, 2246822519);
    h2 = (h2 << 13) | (h2 >>> 19);
  }
  return (h1 >>> 0).toString(16).padStart(8, '0') + (h2 >>> 0).toString(16).padStart(8, '0');
}
export function hashText(s) { const [a, b] = hashStr(s); return a.toString(16) + b.toString(16); }
