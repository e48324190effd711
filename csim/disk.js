'use strict';
// The simulated machine's disk: what the kernel shows (data) and what would survive a power cut (durable + a part of log)
class Err extends Error { constructor(code) { super(code); this.code = code; } }
const S_IFDIR = 0o40000, S_IFREG = 0o100000;

class Disk {
  constructor() { this.names = new Map(); this.meta = []; this.ino = 1; this.cap = Infinity; this.mkdirs('/tmp'); }
  inode(dir, data, mode, mtime) {
    return { ino: this.ino++, dir, data, mode, mtime, log: [], own: null, durable: data, lost: null };
  }
  mkdirs(p) {
    for (let i = 1; i <= p.length; i++) {
      if (i < p.length && p[i] !== '/') continue;
      const d = p.slice(0, i);
      if (!this.names.has(d)) this.names.set(d, this.inode(true, null, S_IFDIR | 0o755, 0));
    }
    if (!this.names.has('/')) this.names.set('/', this.inode(true, null, S_IFDIR | 0o755, 0));
  }
  put(p, data, mode = 0o644, mtime = 1e12) {
    this.mkdirs(p.slice(0, p.lastIndexOf('/')));
    this.names.set(p, this.inode(false, Buffer.from(data), S_IFREG | mode, mtime));
  }
  get(p) { const n = this.names.get(p); return n && !n.dir ? n.data : null; }
  files() { return [...this.names].filter(([, n]) => !n.dir).map(([p, n]) => [p, n.data]).sort((a, b) => (a[0] < b[0] ? -1 : 1)); }
  used() { let s = 0; for (const n of new Set(this.names.values())) if (!n.dir) s += n.data.length; return s; }
  static fsOf(p) { return p.startsWith('/tmp/') ? 2 : 1; }

  link(p, node) { this.meta.push([p, this.names.get(p)]); if (node) this.names.set(p, node); else this.names.delete(p); }
  // Change the content of n; every change can be torn by a crash. The buffer behind n.data grows in place.
  room(n, size) {
    if (!n.own || n.own.length < size) {
      const b = Buffer.alloc(Math.max(64, n.own ? size * 2 : size));
      n.data.copy(b);
      n.own = b;
    }
  }
  write(n, off, buf) {
    const size = Math.max(n.data.length, off + buf.length);
    this.room(n, size);
    if (off > n.data.length) n.own.fill(0, n.data.length, off);
    buf.copy(n.own, off);
    n.data = n.own.subarray(0, size);
    n.log.push({ off, buf });
  }
  resize(n, len) {
    this.room(n, len);
    if (len > n.data.length) n.own.fill(0, n.data.length, len);
    n.data = n.own.subarray(0, len);
    n.log.push({ len });
  }
  freeze(n) { n.own = null; n.durable = n.data; n.log = []; }
  settle() { for (const n of this.names.values()) if (!n.dir) this.freeze(n); this.meta = []; }
  sync(n) { this.freeze(n); this.meta = []; }

  // Power cut: a prefix of the name changes and, per file, a prefix of its unsynced writes, the last one torn
  crash(rng, kill) {
    if (!kill) {
      for (let keep = rng.p(0.5) ? this.meta.length : rng.below(this.meta.length + 1); this.meta.length > keep;) {
        const [p, before] = this.meta.pop();
        if (before) this.names.set(p, before); else this.names.delete(p);
      }
    }
    for (const n of new Set(this.names.values())) {
      if (n.dir || !n.log.length) continue;
      if (!kill && rng.p(0.7)) {
        const log = n.log, k = rng.below(log.length + 1);
        n.data = n.durable;
        n.own = null;
        n.log = [];
        for (let i = 0; i <= k && i < log.length; i++) {
          const s = log[i];
          if (s.len !== undefined) { if (i < k || rng.p(0.5)) this.resize(n, s.len); continue; }
          if (i < k) { this.write(n, s.off, s.buf); continue; }
          const cut = rng.below(s.buf.length + 1);
          if (rng.p(0.3)) { // size went out before the data
            const hole = Buffer.alloc(s.buf.length);
            s.buf.copy(hole, 0, 0, cut);
            this.write(n, s.off, hole);
          } else this.write(n, s.off, s.buf.subarray(0, cut));
        }
      }
      this.freeze(n);
    }
    this.meta = [];
  }
}
module.exports = { Disk, Err, S_IFDIR, S_IFREG };
