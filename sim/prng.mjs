// The only source of randomness in the simulator: every stream is a pure
// function of (seed, name).
export function hashStr(s) { // FNV-1a, 64 bit in two halves
  let h1 = 0x811c9dc5, h2 = 0xc9dc5118;
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    h1 = Math.imul(h1 ^ c, 0x01000193); h2 = Math.imul(h2 ^ (c + i), 0x01000197);
  }
  return [h1 >>> 0, h2 >>> 0];
}
export class Rng {
  constructor(seed) { // sfc32
    const [x, y] = hashStr(String(seed));
    this.a = x; this.b = y; this.c = 0x9e3779b9; this.d = 1;
    for (let i = 0; i < 15; i++) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = ((this.c << 21) | (this.c >>> 11)) + t | 0;
    return t >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  int(n) { return n <= 1 ? 0 : Math.floor(this.f() * n); }        // 0..n-1
  range(lo, hi) { return lo + this.int(hi - lo + 1); }             // lo..hi
  chance(p) { return this.f() < p; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(pairs) { // [[weight, value], ...]
    let s = 0; for (const p of pairs) s += p[0];
    let x = this.f() * s;
    for (const p of pairs) { x -= p[0]; if (x < 0) return p[1]; }
    return pairs[pairs.length - 1][1];
  }
  geom(mean) { return Math.floor(-Math.log(1 - this.f()) * mean); }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1);[a[i], a[j]] = [a[j], a[i]]; } return a; }
  sample(a, n) { return this.shuffle(a.slice()).slice(0, n); }
}
// running hash of an event log
export class LogHash {
  constructor() { this.a = 0x811c9dc5; this.b = 0x1b873593; this.n = 0; }
  add(s) {
    this.n++;
    let a = this.a, b = this.b;
    for (let i = 0; i < s.length; i++) { const c = s.charCodeAt(i); a = Math.imul(a ^ c, 0x01000193); b = Math.imul((b ^ c) + 0x52dce729, 0x01000197) ^ (b >>> 13); }
    this.a = Math.imul(a ^ 10, 0x01000193); this.b = b;
  }
  num(...xs) { for (const x of xs) { this.a = Math.imul(this.a ^ (x | 0), 0x01000193); this.b = Math.imul((this.b ^ (x | 0)) + 0x52dce729, 0x01000197) ^ (this.b >>> 13); } this.n++; }
  hex() { return (this.a >>> 0).toString(16).padStart(8, '0') + (this.b >>> 0).toString(16).padStart(8, '0') + '.' + this.n; }
}
