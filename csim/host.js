'use strict';
// A simulated machine that runs the generator, compiled by the Go toolchain for js/wasm: every system call, timer, clock
// reading and random byte of the real program comes from here.
const vm = require('vm'), fs = require('fs');
const { Rng, Digest } = require('../wsim/rng.js');
const { Err, S_IFDIR, S_IFREG } = require('./disk.js');
const O = { O_RDONLY: 0, O_WRONLY: 1, O_RDWR: 2, O_CREAT: 64, O_EXCL: 128, O_TRUNC: 512, O_APPEND: 1024, O_DIRECTORY: 65536 };
const MAX_OPS = 400000;
let ctx, bytes;
const modules = new Map();

function setup(wasm, execJs) {
  bytes = fs.readFileSync(wasm);
  ctx = vm.createContext({ TextEncoder, TextDecoder, WebAssembly, console: { log() {}, warn() {}, error() {} } });
  ctx.globalThis = ctx;
  ctx.fs = { constants: O }; ctx.process = {}; ctx.path = {};
  ctx.crypto = { getRandomValues() {} }; ctx.performance = { now: () => 0 };
  vm.runInContext(fs.readFileSync(execJs, 'utf8'), ctx, { filename: execJs });
}

// The module, with its memory limited to `more` pages above what it starts with (0: no limit)
function moduleFor(more) {
  if (modules.has(more)) return modules.get(more);
  let b = bytes;
  if (more) {
    const uleb = i => { let v = 0, s = 0; for (;;) { const x = b[i++]; v += (x & 127) * 2 ** s; s += 7; if (x < 128) return [v, i]; } };
    const enc = v => { const o = []; for (;;) { const x = v % 128; v = (v - x) / 128; if (v) o.push(x | 128); else { o.push(x); return o; } } };
    for (let i = 8; i < b.length;) {
      const id = b[i]; const [len, at] = uleb(i + 1);
      if (id === 5) {
        const [min] = uleb(at + 2);
        const body = [1, 1, ...enc(min), ...enc(min + more)];
        b = Buffer.concat([b.subarray(0, i), Buffer.from([5, ...enc(body.length), ...body]), b.subarray(at + len)]);
        break;
      }
      i = at + len;
    }
  }
  modules.set(more, new WebAssembly.Module(b));
  return modules.get(more);
}

const resolve = (cwd, p) => {
  const out = [];
  for (const s of (p[0] === '/' ? p : cwd + '/' + p).split('/')) {
    if (s === '..') out.pop(); else if (s && s !== '.') out.push(s);
  }
  return '/' + out.join('/');
};

class Machine {
  constructor(disk, m) {
    this.disk = disk; this.m = m;
    this.rng = new Rng('machine ' + m.rand);
    this.now = 0; this.jump = 0; this.queue = []; this.seq = 0; this.ops = 0;
    this.fds = new Map([[0, {}], [1, {}], [2, {}]]);
    this.cwd = m.cwd; this.out = ''; this.err = ''; this.order = new Digest(); this.fired = {}; this.journal = [];
    this.state = 'running';
    const start = disk.used();
    this.room = m.room === undefined || m.room < 0 ? Infinity : start + m.room;
  }
  fire(k) { this.fired[k] = (this.fired[k] || 0) + 1; }
  at(delay, f) { this.queue.push({ t: this.now + delay, n: this.seq++, f }); }

  // ---- the system calls
  node(path) {
    const n = this.disk.names.get(path);
    if (n) return n;
    const parent = this.disk.names.get(path.slice(0, path.lastIndexOf('/')) || '/');
    throw new Err(parent && !parent.dir ? 'ENOTDIR' : 'ENOENT');
  }
  parentOf(path) {
    const p = this.disk.names.get(path.slice(0, path.lastIndexOf('/')) || '/');
    if (!p) throw new Err('ENOENT');
    if (!p.dir) throw new Err('ENOTDIR');
    if (!(p.mode & 0o200)) throw new Err('EACCES');
  }
  stat(n) {
    const ms = n.mtime || 0;
    return { dev: 1, ino: n.ino || 0, mode: n.mode === undefined ? 0o20620 : n.mode, nlink: 1, uid: 1000, gid: 1000, rdev: 0, size: n.dir || !n.data ? 0 : n.data.length,
      blksize: 4096, blocks: 1, atimeMs: ms, mtimeMs: ms, ctimeMs: ms, isDirectory: () => !!n.dir };
  }
  fd(n) { const f = this.fds.get(n); if (!f) throw new Err('EBADF'); return f; }
  call(op, a, torn) {
    const d = this.disk, wall = this.m.t0 + this.jump + Math.floor(this.now / 1000);
    switch (op) {
      case 'open': {
        const [path, flags, mode] = a;
        let n = d.names.get(path);
        if (n && (flags & O.O_CREAT) && (flags & O.O_EXCL)) throw new Err('EEXIST');
        if (!n) {
          if (!(flags & O.O_CREAT)) this.node(path);
          this.parentOf(path);
          n = d.inode(false, Buffer.alloc(0), S_IFREG | (mode & 0o777 & ~0o022), wall);
          d.link(path, n);
        } else {
          const w = flags & 3;
          if (n.dir && w) throw new Err('EISDIR');
          if (!n.dir && w !== O.O_WRONLY && !(n.mode & 0o400)) throw new Err('EACCES');
          if (!n.dir && w && !(n.mode & 0o200)) throw new Err('EACCES');
          if (!n.dir && (flags & O.O_DIRECTORY)) throw new Err('ENOTDIR');
          if (!n.dir && w && (flags & O.O_TRUNC)) { if (n.data.length) d.resize(n, 0); n.mtime = wall; }
        }
        let fd = 3;
        while (this.fds.has(fd)) fd++;
        this.fds.set(fd, { n, path, pos: 0, flags });
        return fd;
      }
      case 'close': {
        const f = this.fd(a[0]);
        this.fds.delete(a[0]);
        if (f.n) this.report(f.n);
        return undefined;
      }
      case 'fsync': {
        const f = this.fd(a[0]);
        if (f.n) { this.report(f.n); d.sync(f.n); }
        return undefined;
      }
      case 'fstat': return this.stat(this.fd(a[0]).n || {});
      case 'stat': case 'lstat': return this.stat(this.node(a[0]));
      case 'read': {
        const [fd, buf, off, len, pos] = a, f = this.fd(fd);
        if (fd === 0) return 0;
        if (!f.n || f.n.dir) throw new Err(f.n ? 'EISDIR' : 'EBADF');
        if ((f.flags & 3) === O.O_WRONLY) throw new Err('EBADF');
        const p = pos === null || pos === undefined ? f.pos : pos;
        let n = Math.max(0, Math.min(len, f.n.data.length - p));
        if (this.m.maxRead && n > 1) { const k = 1 + this.rng.below(this.m.maxRead); if (k < n) { n = k; this.fire('short_read'); } }
        if (torn !== undefined && n > 1) { n = 1 + torn % (n - 1); this.fire('short_read'); }
        if (n > 0) buf.set(f.n.data.subarray(p, p + n), off);
        if (pos === null || pos === undefined) f.pos += n;
        return n;
      }
      case 'write': {
        const [fd, buf, off, len, pos] = a, f = this.fd(fd);
        let src = Buffer.from(buf.subarray(off, off + len));
        if (this.m.maxWrite && src.length > 1) { const k = 1 + this.rng.below(this.m.maxWrite); if (k < src.length) { src = src.subarray(0, k); this.fire('short_write'); } }
        if (torn !== undefined && src.length > 1) { src = src.subarray(0, 1 + torn % (src.length - 1)); this.fire('short_write'); }
        if (fd <= 2) { if (fd === 1) this.out += src; else this.err += src; return src.length; }
        if (!f.n || f.n.dir || (f.flags & 3) === O.O_RDONLY) throw new Err('EBADF');
        const p = (f.flags & O.O_APPEND) ? f.n.data.length : pos === null || pos === undefined ? f.pos : pos;
        const grow = Math.max(0, p + src.length - f.n.data.length);
        if (grow && this.room !== Infinity) {
          const free = this.room - d.used();
          if (free < grow) {
            this.fire('disk_full');
            const k = src.length - (grow - Math.max(0, free));
            if (k <= 0) throw new Err('ENOSPC');
            src = src.subarray(0, k);
          }
        }
        if (f.n.lost === null || f.n.lost === undefined) d.write(f.n, p, src);
        else { // accepted, but the storage will never take it
          const keep = src.subarray(0, f.n.lost);
          f.n.lost = 0; f.n.owed = true;
          const z = Buffer.alloc(src.length);
          keep.copy(z);
          d.write(f.n, p, z);
        }
        f.n.mtime = wall;
        if (pos === null || pos === undefined) f.pos = p + src.length;
        return src.length;
      }
      case 'ftruncate': case 'truncate': {
        const n = op === 'truncate' ? this.node(a[0]) : this.fd(a[0]).n;
        if (!n || n.dir) throw new Err('EINVAL');
        if (op === 'truncate' && !(n.mode & 0o200)) throw new Err('EACCES');
        d.resize(n, a[1]); n.mtime = wall;
        return undefined;
      }
      case 'readdir': {
        const n = this.node(a[0]);
        if (!n.dir) throw new Err('ENOTDIR');
        const pre = a[0] === '/' ? '/' : a[0] + '/';
        const l = [...d.names.keys()].filter(p => p !== '/' && p.startsWith(pre) && !p.slice(pre.length).includes('/')).map(p => p.slice(pre.length));
        for (let i = l.length - 1; i > 0; i--) { const j = this.rng.below(i + 1); [l[i], l[j]] = [l[j], l[i]]; }
        return l;
      }
      case 'mkdir': {
        if (d.names.has(a[0])) throw new Err('EEXIST');
        this.parentOf(a[0]);
        d.link(a[0], d.inode(true, null, S_IFDIR | (a[1] & 0o777 & ~0o022), wall));
        return undefined;
      }
      case 'rmdir': {
        const n = this.node(a[0]);
        if (!n.dir) throw new Err('ENOTDIR');
        if ([...d.names.keys()].some(p => p.startsWith(a[0] + '/'))) throw new Err('ENOTEMPTY');
        this.parentOf(a[0]); d.link(a[0], null);
        return undefined;
      }
      case 'unlink': {
        if (this.node(a[0]).dir) throw new Err('EISDIR');
        this.parentOf(a[0]); d.link(a[0], null);
        return undefined;
      }
      case 'rename': {
        const [from, to] = a, n = this.node(from), o = d.names.get(to);
        if (d.constructor.fsOf(from) !== d.constructor.fsOf(to)) throw new Err('EXDEV');
        this.parentOf(from); this.parentOf(to);
        if (o && o.dir) throw new Err(n.dir ? 'ENOTEMPTY' : 'EISDIR');
        if (n.dir) throw new Err(o ? 'ENOTDIR' : 'EINVAL');
        if (o === n) return undefined;
        d.link(to, n); d.link(from, null);
        return undefined;
      }
      case 'link': {
        const [from, to] = a, n = this.node(from);
        if (d.names.has(to)) throw new Err('EEXIST');
        if (n.dir) throw new Err('EPERM');
        this.parentOf(to); d.link(to, n);
        return undefined;
      }
      case 'chmod': case 'fchmod': {
        const n = op === 'chmod' ? this.node(a[0]) : this.fd(a[0]).n;
        if (n) n.mode = (n.mode & ~0o7777) | (a[1] & 0o7777);
        return undefined;
      }
      case 'utimes': this.node(a[0]).mtime = a[2] * 1000; return undefined;
      case 'chown': case 'lchown': this.node(a[0]); return undefined;
      case 'fchown': this.fd(a[0]); return undefined;
      case 'readlink': this.node(a[0]); throw new Err('EINVAL');
      default: throw new Err('ENOSYS');
    }
  }
  report(n) { // a write-back failure is told once, at the next fsync or close
    if (!n.owed) return;
    n.owed = false;
    this.fire('write_back_error_reported');
    throw new Err('EIO');
  }

  // One system call takes effect, or a fault does
  step(op, raw, cb) {
    const i = this.ops++;
    if (this.ops > MAX_OPS) { this.state = 'endless'; return; }
    const paths = { open: 1, stat: 1, lstat: 1, truncate: 1, readdir: 1, mkdir: 1, rmdir: 1, unlink: 1, rename: 2, link: 2, chmod: 1, chown: 1, lchown: 1, utimes: 1, readlink: 1 }[op] || 0;
    const a = raw.map((x, k) => (k < paths ? resolve(this.cwd, x) : x));
    const path = paths ? a[0] : (this.fds.get(a[0]) || {}).path || '#' + a[0];
    let err = null, val, torn, then;
    for (const f of this.m.faults || []) {
      if (f.at !== undefined ? f.at !== i : i < f.from) continue;
      if (f.path !== undefined && (f.path !== path || !f.ops.includes(op))) continue;
      if (f.do === 'clock') { this.jump += f.by; this.fire('clock_jump'); continue; }
      if (f.do === 'crash') { then = f; continue; }
      if (f.do === 'lose') { // applies to writes to regular files only
        const h = this.fds.get(a[0]);
        if (op === 'write' && h && h.n && !h.n.dir) { h.n.lost = f.n; this.fire('lost_write'); }
        continue;
      }
      if (f.do === 'short') { if (op === 'read' || op === 'write') torn = f.n; continue; }
      if (f.soft && !['open', 'read', 'write'].includes(op)) continue;
      if (f.only && !f.only.includes(op)) continue;
      err = f.do;
      this.fire((f.path ? 'persistent_' : '') + op + '_' + f.do);
    }
    if (then) {
      // killed with the call half done
      if (!err) try { this.call(op, a, then.n); } catch (e) { if (!e.code) throw e; }
      this.disk.crash(new Rng('crash ' + then.n), then.kill);
      this.fire(then.kill ? 'process_killed' : 'power_cut');
      this.state = 'crashed';
      return;
    }
    if (!err) try { val = this.call(op, a, torn); } catch (e) { if (!e.code) throw e; err = e.code; }
    else if (op === 'close') this.fds.delete(a[0]);
    const say = op === 'open' || op === 'write' || op === 'read' ? val : '';
    this.order.add(op + ' ' + path.replace(this.m.cwd.slice(0, -'/codegen'.length), '~') + ' ' + (err || say));
    this.journal.push([op, path, err || say]);
    if (this.heard) this.heard(op + ' ' + path + ' ' + (err || say));
    if (err) { const e = new Err(err); cb(e); } else cb(null, val);
  }

  // What the program finds in its global scope
  enter() {
    const m = this.m, self = this;
    ctx.fs = this.sys;
    ctx.path = { resolve: (...p) => p.reduce((c, x) => resolve(c, x), self.cwd) };
    ctx.process = { pid: m.pid, ppid: 1, getuid: () => 1000, geteuid: () => 1000, getgid: () => 1000, getegid: () => 1000, getgroups: () => [1000],
      umask: () => 0o022, cwd: () => self.cwd, chdir: p => { self.cwd = resolve(self.cwd, p); } };
    ctx.crypto = { getRandomValues: b => { for (let i = 0; i < b.length; i++) b[i] = self.rng.u32(); return b; } };
    ctx.performance = { now: () => self.now / 1000 };
    ctx.Date = class { getTime() { return m.t0 + self.jump + Math.floor(self.now / 1000); } static now() { return m.t0; } getTimezoneOffset() { return m.tz; } };
    ctx.setTimeout = (f, ms) => { const e = { f }; self.at(ms * 1000, () => { if (!e.gone) f(); }); return e; };
    ctx.clearTimeout = e => { if (e) e.gone = true; };
  }
  start() {
    const m = this.m, self = this, sys = { constants: O };
    for (const op of ['open', 'close', 'fsync', 'fstat', 'stat', 'lstat', 'read', 'write', 'ftruncate', 'truncate', 'readdir', 'mkdir', 'rmdir', 'unlink',
      'rename', 'link', 'symlink', 'chmod', 'fchmod', 'chown', 'fchown', 'lchown', 'utimes', 'readlink']) {
      sys[op] = (...a) => {
        const cb = a.pop(), stall = (m.stalls || []).find(x => x.at === self.ops);
        if (stall) self.fire('process_stalled');
        self.at((m.slow ? self.rng.delay() : 1) + (stall ? stall.us : 0), () => self.step(op, a, cb));
      };
    }
    sys.writeSync = (fd, buf) => { if (fd === 1) self.out += Buffer.from(buf); else self.err += Buffer.from(buf); return buf.length; };
    this.sys = sys;
    this.enter();
    const go = this.go = new ctx.Go();
    go.argv = ['main', ...m.argv];
    // invalidptr=0: the collector of the js/wasm port mistakes a number for a pointer in large heaps (see DESIGN.md)
    go.env = { ...m.env, GODEBUG: 'invalidptr=0' };
    this.code = null; this.trap = null;
    go.exit = c => { self.code = c; self.state = 'exited'; };
    const inst = new WebAssembly.Instance(moduleFor(m.pages || 0), go.importObject);
    go.run(inst).catch(e => { self.trap = e; });
  }
  next() {
    let k = 0;
    for (let i = 1; i < this.queue.length; i++) { const a = this.queue[i], b = this.queue[k]; if (a.t < b.t || (a.t === b.t && a.n < b.n)) k = i; }
    return k;
  }
  // The next event of this process; false when it has ended
  async turn() {
    const self = this, go = this.go;
    if (this.state === 'running') {
      this.enter();
      if (!self.queue.length) {
        await null; await null;
        if (!self.trap && !go._deadlocked) {
          go._deadlocked = true;
          self.fire('deadlock');
          go._pendingEvent = { id: 0 };
          try { go._resume(); } catch (e) { self.trap = e; }
          return true;
        }
      } else {
        const e = self.queue.splice(self.next(), 1)[0];
        if (e.t > self.now) self.now = e.t;
        try { e.f(); return this.state === 'running'; } catch (x) { self.trap = x; }
      }
      if (self.state === 'running') { self.state = 'exited'; self.code = 134; self.err += 'trap: ' + (self.trap && self.trap.stack || self.trap); }
    }
    return false;
  }
  result() {
    if (this.m.pages && this.code) this.fire('out_of_memory');
    return { state: this.state, code: this.code, out: this.out, err: this.err, us: this.now, ops: this.ops, fired: this.fired, order: this.order.hex(), journal: this.journal };
  }
}
async function execute(disk, m) {
  const x = new Machine(disk, m);
  x.start();
  while (await x.turn());
  return x.result();
}
// Processes of one machine at the same time. One starts at m.start, or when process m.after has ended
async function executeAll(disk, ms) {
  const xs = ms.map(m => new Machine(disk, m)), together = new Digest(), live = new Set();
  const waiting = new Set(xs);
  let now = 0, overlap = 0;
  xs.forEach((x, i) => { x.heard = say => together.add(i + ' ' + say); });
  while (waiting.size || live.size) {
    // The earliest event of all, or the start of a process
    let best = null, t = Infinity;
    for (const x of live) { const e = x.queue.length ? x.queue[x.next()].t : now; if (e < t) { t = e; best = x; } }
    for (const x of waiting) {
      const y = xs[x.m.after];
      if (y && (waiting.has(y) || live.has(y))) continue;
      const s = Math.max(x.m.start || 0, y ? y.now : 0);
      if (s < t) { t = s; best = x; }
    }
    now = Math.max(now, t);
    if (waiting.delete(best)) { best.now = now; best.start(); live.add(best); overlap = Math.max(overlap, live.size); if (best.state !== 'running') live.delete(best); continue; }
    if (!await best.turn()) live.delete(best);
  }
  return { runs: xs.map(x => x.result()), order: together.hex(), overlap };
}
module.exports = { setup, execute, executeAll, resolve };
