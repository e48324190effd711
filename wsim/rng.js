'use strict';
// The one source of randomness of the page simulator
class Rng {
  constructor(text) {
    this.s = [0x9e3779b9, 0x243f6a88, 0xb7e15162, 0xdeadbeef];
    for (const b of Buffer.from(text)) { this.s[0] = Math.imul(this.s[0] ^ b, 0x01000193); this.u32(); }
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { // sfc32
    const s = this.s;
    const t = (s[0] + s[1] + s[3]) | 0;
    s[3] = (s[3] + 1) | 0;
    s[0] = s[1] ^ (s[1] >>> 9);
    s[1] = (s[2] + (s[2] << 3)) | 0;
    s[2] = ((s[2] << 21) | (s[2] >>> 11)) + t | 0;
    return t >>> 0;
  }
  below(n) { return Number((BigInt(this.u32()) * BigInt(n)) >> 32n); }
  p(x) { return this.u32() < x * 4294967296; }
  pick(a) { return a[this.below(a.length)]; }
  // mostly short, sometimes very long (microseconds)
  delay() { return this.pick([0, 0, 1, this.below(100), this.below(5000), this.below(300000), this.below(60000000)]); }
}
class Digest {
  constructor() { this.a = 0x811c9dc5; this.b = 0x1b873593; }
  add(x) {
    for (const c of Buffer.from(String(x) + '|')) {
      this.a = Math.imul(this.a ^ c, 0x01000193);
      this.b = Math.imul(this.b + c + (this.b >>> 13), 0x5bd1e995) ^ (this.a >>> 7);
    }
    return this;
  }
  hex() { return (this.a >>> 0).toString(16).padStart(8, '0') + (this.b >>> 0).toString(16).padStart(8, '0'); }
}
module.exports = { Rng, Digest };
