'use strict';
// C10: a browser under a seeded discrete-event scheduler; main.js, wasm.js and the module are real.
const fs = require('fs'), path = require('path'), vm = require('vm'), url = require('url');
const { Rng, Digest } = require('./rng.js');

const W = 336, H = 536;
const FAULTS = ['connect', 'abort', 'status', 'mime', 'body', 'stall', 'truncate', 'corrupt', 'append', 'compile', 'memory', 'trap'];

let demoDir, fresh, committed;
const SCREENS = ['noise', 'sparse', 'set', 'frame', 'stripes'];
const modules = new Map(); // cache of compiled unmodified modules
function setup(dir, wasmPath) {
  demoDir = dir;
  fresh = fs.readFileSync(wasmPath);
  const c = path.join(dir, 'demo.wasm');
  committed = fs.existsSync(c) ? fs.readFileSync(c) : fresh;
  for (const b of [fresh, committed]) modules.set(b, new WebAssembly.Module(b));
}

// ---------------------------------------------------------------- plan
function plan(seed, run) {
  const r = new Rng('C10/' + seed + '/' + run);
  const p = { sim: 'wsim', prop: 'C10', seed, run, streaming: r.p(0.6), built: r.p(0.85), prober_first: r.p(0.5), fault: null };
  const calm = r.p(0.15); // everything from the cache, no latency at all
  const d = () => calm ? 0 : r.delay();
  p.start = { main: d(), prober: d() };
  p.headers = d();
  p.chunks = [];
  for (let i = r.below(5); i >= 0; i--) p.chunks.push([1 + r.below(1000), d()]);
  p.compile = d();
  p.instantiate = d();
  if (r.p(0.55)) {
    const kind = r.pick(FAULTS);
    p.fault = { kind };
    if (kind === 'status') p.fault.status = r.pick([404, 403, 500, 503, 204]);
    if (kind === 'mime') p.fault.mime = r.pick(['', 'text/html', 'application/octet-stream', 'text/plain;charset=utf-8']);
    if (['body', 'stall', 'truncate', 'corrupt', 'append'].includes(kind)) p.fault.at = r.below(1000);
    if (kind === 'corrupt') p.fault.xor = 1 + r.below(255);
    if (kind === 'compile') p.fault.error = r.pick(['CompileError', 'RangeError', 'LinkError']);
  }
  p.screen = r.p(0.6) ? 'demo' : r.pick(SCREENS);
  p.probes = [];
  for (let i = r.below(6); i > 0; i--) p.probes.push([d() + (r.p(0.4) ? p.start.main + p.headers + p.compile + p.instantiate + p.chunks.reduce((a, c) => a + c[1], 0) : 0), r.pick(['frame', 'frame', 'frame', 'init', 'twice', 'write', 'write'])]);
  return p;
}

function body(p) {
  const good = p.built ? fresh : committed;
  const f = p.fault;
  let b = good;
  const at = f && f.at !== undefined ? Math.floor(good.length * f.at / 1000) : 0;
  if (f && f.kind === 'truncate') b = good.subarray(0, at);
  else if (f && f.kind === 'append') b = Buffer.concat([good, good.subarray(0, 1 + at % 997)]);
  else if (f && f.kind === 'corrupt') {
    b = Buffer.from(good);
    b[at] ^= f.xor;
    for (let i = 0; i < 64; i++) b[(at + 7 * i) % b.length] ^= f.xor;
  } else if (f && f.kind === 'status') b = Buffer.from('<!DOCTYPE html><title>' + f.status + '</title>');
  if (b !== good && WebAssembly.validate(b)) { b = Buffer.from(good); b[0] ^= 1; } // damage must show
  return b;
}

// What the page has to show for these module bytes: the frame buffer after init
const expectedOf = new Map();
function expected(bytes) {
  if (!expectedOf.has(bytes)) {
    const x = new WebAssembly.Instance(modules.get(bytes), imports()).exports;
    x.init();
    const start = x.frame_buf_ptr() >>> 0;
    expectedOf.set(bytes, Buffer.from(new Uint8Array(x.memory.buffer, start, H * 44)));
  }
  return expectedOf.get(bytes);
}
// What another demo could have painted: the page must show that just as well. Padding bits get noise, too.
function paint(p, fb) {
  if ((p.screen || 'demo') === 'demo') return fb;
  const r = new Rng('screen/' + p.seed + '/' + p.run);
  for (let y = 0; y < H; y++) for (let i = 0; i < 44; i++) {
    const edge = y === 0 || y === H - 1, n = r.below(256);
    let b = n;
    if (i < 42) {
      if (p.screen === 'sparse') b = n < 250 ? 0xff : n;
      if (p.screen === 'set') b = 0;
      if (p.screen === 'frame') b = edge ? 0 : i === 0 ? 0xfe : i === 41 ? 0x7f : 0xff;
      if (p.screen === 'stripes') b = y & 1 ? 0x55 : 0xaa;
    }
    fb[y * 44 + i] = b;
  }
  return fb;
}
function wanted(p) { return paint(p, Buffer.from(expected(p.built ? fresh : committed))); }
const imports = () => ({ js: { js_log_trace() {} } });

// ---------------------------------------------------------------- browser
class Canvas {
  constructor(world, w = 300, h = 150) { this.world = world; this.w = w; this.h = h; this.wipe(); this.style = {}; }
  wipe() { this.px = new Uint8ClampedArray(this.w * this.h * 4); }
  get width() { return this.w; }
  get height() { return this.h; }
  set width(v) { this.w = Math.max(0, Math.trunc(Number(v)) || 0); this.wipe(); }
  set height(v) { this.h = Math.max(0, Math.trunc(Number(v)) || 0); this.wipe(); }
  addEventListener() {}
  setAttribute(k, v) { if (k === 'width') this.width = v; if (k === 'height') this.height = v; }
  getAttribute(k) { return String(this[k]); }
  getContext(kind) {
    if (kind !== '2d') return null;
    return this.ctx || (this.ctx = new Context(this));
  }
}
class ImageData {
  constructor(a, b, c) {
    if (typeof a === 'number') { this.width = a; this.height = b; this.data = new Uint8ClampedArray(a * b * 4); } else {
      this.width = b; this.height = c === undefined || typeof c === 'object' ? a.length / 4 / b : c; this.data = a;
      if (this.width * this.height * 4 !== a.length) throw new RangeError('InvalidStateError');
    }
    this.colorSpace = 'srgb';
  }
}
class Context {
  constructor(c) { this.canvas = c; this.fillStyle = '#000000'; }
  image(w, h) { return new ImageData(w, h); }
  drew() { if (this.canvas === this.canvas.world.canvas) this.canvas.world.drew(); }
  save() {}
  restore() {}
  // Pixels with alpha 0 leave what is there; none of the pages here use others than 0 and 255
  drawImage(src, x, y) {
    const c = this.canvas;
    this.drew();
    for (let j = 0; j < src.h; j++) for (let i = 0; i < src.w; i++) {
      const s = (j * src.w + i) * 4;
      if (x + i < 0 || x + i >= c.w || y + j < 0 || y + j >= c.h || src.px[s + 3] === 0) continue;
      c.px.set(src.px.subarray(s, s + 4), ((y + j) * c.w + x + i) * 4);
    }
  }
  createImageData(w, h) { return typeof w === 'object' ? this.image(w.width, w.height) : this.image(w, h); }
  getImageData(x, y, w, h) {
    if (!(w > 0 && h > 0)) throw new RangeError('IndexSizeError');
    const im = this.image(w, h), c = this.canvas;
    for (let j = 0; j < h; j++) for (let i = 0; i < w; i++) {
      if (x + i < 0 || x + i >= c.w || y + j < 0 || y + j >= c.h) continue;
      const s = ((y + j) * c.w + x + i) * 4, d = (j * w + i) * 4;
      for (let k = 0; k < 4; k++) im.data[d + k] = c.px[s + k];
    }
    return im;
  }
  putImageData(im, x, y, dx = 0, dy = 0, dw = im.width, dh = im.height) {
    const c = this.canvas;
    this.drew();
    if (x === 0 && y === 0 && dx === 0 && dy === 0 && dw === c.w && dh === c.h && im.data.length === c.px.length) { c.px.set(im.data); return; }
    for (let j = dy; j < dy + dh && j < im.height; j++) for (let i = dx; i < dx + dw && i < im.width; i++) {
      if (i < 0 || j < 0 || x + i < 0 || x + i >= c.w || y + j < 0 || y + j >= c.h) continue;
      const d = ((y + j) * c.w + x + i) * 4, s = (j * im.width + i) * 4;
      for (let k = 0; k < 4; k++) c.px[d + k] = im.data[s + k];
    }
  }
  fillRect(x, y, w, h) {
    const c = this.canvas, m = /^#([0-9a-f]{2})([0-9a-f]{2})([0-9a-f]{2})$/i.exec(this.fillStyle);
    const short = /^#([0-9a-f])([0-9a-f])([0-9a-f])$/i.exec(this.fillStyle);
    const rgb = /^rgba?\((\d+)[ ,]+(\d+)[ ,]+(\d+)\)?/.exec(this.fillStyle);
    const col = rgb ? rgb.slice(1, 4).map(Number) : m ? m.slice(1).map(v => parseInt(v, 16)) : short ? short.slice(1).map(v => 17 * parseInt(v, 16)) : [0, 0, 0];
    this.drew();
    for (let j = Math.max(0, y); j < Math.min(c.h, y + h); j++) for (let i = Math.max(0, x); i < Math.min(c.w, x + w); i++)
      c.px.set([...col, 255], (j * c.w + i) * 4);
  }
  clearRect(x, y, w, h) {
    const c = this.canvas;
    for (let j = Math.max(0, y); j < Math.min(c.h, y + h); j++) for (let i = Math.max(0, x); i < Math.min(c.w, x + w); i++)
      c.px.fill(0, (j * c.w + i) * 4, (j * c.w + i) * 4 + 4);
  }
}

const settle = () => new Promise(r => setImmediate(() => setImmediate(r)));
let current = null; // world of the run in progress, for process-wide events
process.on('unhandledRejection', e => { if (current) current.unhandled.push(describe(e)); });
process.on('uncaughtException', e => {
  if (current && !(e && e.harness)) current.unhandled.push(describe(e));
  else { console.log('H ' + (e && e.stack || e)); process.exit(3); }
});
function describe(e) { return e && e.message !== undefined ? (e.name || 'Error') + ': ' + e.message : String(e); }

class World {
  constructor(p) {
    this.p = p; this.now = 0; this.seq = 0; this.queue = []; this.log = []; this.tasks = 0;
    this.unhandled = []; this.draws = []; this.ready = false; this.failedAt = null; this.fetches = 0; this.early = 0; this.late = 0;
    this.fired = null; this.instances = []; this.throws = []; this.bad = null;
  }
  at(delay, name, f) { this.queue.push([this.now + delay, this.seq++, name, f]); return this.seq - 1; }
  cancel(id) { this.queue = this.queue.filter(e => e[1] !== id); }
  drew() { if (this.draws[this.draws.length - 1] !== this.tasks) { this.draws.push(this.tasks); if (!this.ready) this.bad = this.bad || 'the page drew before the module was ready'; } }
  fault(kind) { const f = this.p.fault; if (f && f.kind === kind) { this.fired = kind; return f; } return null; }

  async start() {
    const w = this, p = this.p;
    const html = fs.readFileSync(path.join(demoDir, 'index.html'), 'utf8');
    const ids = new Map();
    for (const m of html.matchAll(/<(\w+)[^>]*\bid="([^"]*)"/g)) ids.set(m[2], m[1] === 'canvas' ? new Canvas(w) : { style: {}, addEventListener() {}, appendChild() {} });
    this.canvas = [...ids.values()].find(e => e instanceof Canvas);
    const scripts = [...html.matchAll(/<script[^>]*\bsrc="([^"]*)"/g)].map(m => m[1]);
    const listeners = {};
    const listen = (k, f) => { (listeners[k] = listeners[k] || []).push(f); };
    const document = {
      readyState: 'interactive', body: { appendChild() {} }, addEventListener: listen, removeEventListener() {},
      querySelector: s => s[0] === '#' ? ids.get(s.slice(1)) || null : s === 'canvas' ? w.canvas || null : null,
      getElementById: s => ids.get(s) || null,
      querySelectorAll: s => { const e = document.querySelector(s); return e ? [e] : []; },
      getElementsByTagName: t => t === 'canvas' && w.canvas ? [w.canvas] : [],
      createElement: t => t === 'canvas' ? new Canvas(w) : { style: {}, appendChild() {}, addEventListener() {} },
    };
    const g = vm.createContext({});
    const P = vm.runInContext('Promise', g), E = vm.runInContext('({TypeError, RangeError, Error})', g);
    const defer = () => { let ok, no; const pr = new P((a, b) => { ok = a; no = b; }); return { pr, ok, no }; };
    const wasmError = (n, m) => { const C = WebAssembly[n]; return C ? new C(m) : new E[n](m); };

    class Response {
      constructor(status, type, bytes) { this.status = status; this.ok = status >= 200 && status < 300; this.type_ = type; this.bytes_ = bytes; this.used = false; this.url = 'http://demo.test/demo.wasm'; this.headers = { get: k => k.toLowerCase() === 'content-type' ? type : null }; }
      get bodyUsed() { return this.used; }
      // Body arrives in chunks; resolves with all bytes
      take() {
        const d = defer();
        if (this.used) { d.no(new E.TypeError('body already used')); return d.pr; }
        this.used = true;
        const chunks = w.p.chunks, f = w.p.fault;
        let i = 0;
        const next = () => {
          const stop = f && (f.kind === 'body' || f.kind === 'stall') && i === Math.floor(chunks.length * f.at / 1000);
          if (stop && w.fault('stall')) return;
          if (stop && w.fault('body')) { d.no(new E.TypeError('network error')); return; }
          if (i === chunks.length) { for (const k of ['truncate', 'corrupt', 'append']) w.fault(k); d.ok(this.bytes_); return; }
          i++;
          w.at(chunks[i - 1][1], 'chunk', next);
        };
        next();
        return d.pr;
      }
      arrayBuffer() { return this.take().then(b => { const a = new ArrayBuffer(b.length); new Uint8Array(a).set(b); w.raw.set(a, b); return a; }); }
      bytes() { return this.arrayBuffer().then(a => new Uint8Array(a)); }
      get body() {
        let done = false;
        const r = this, read = () => done ? P.resolve({ value: undefined, done: true }) : (done = true, r.bytes().then(value => ({ value, done: false })));
        return { getReader: () => ({ read, releaseLock() {}, cancel: () => P.resolve() }), locked: false };
      }
      clone() { return new Response(this.status, this.type_, this.bytes_); }
    }
    this.raw = new Map(); // buffer -> bytes it came from, to find compiled modules again

    function fetch(what) {
      w.fetches++;
      const d = defer();
      const u = new URL(what && what.url || String(what), 'http://demo.test/index.html');
      w.at(p.headers, 'headers', () => {
        if (w.fault('connect')) return d.no(new E.TypeError('Failed to fetch'));
        if (w.fault('abort')) { const e = new E.Error('The operation was aborted'); e.name = 'AbortError'; return d.no(e); }
        if (u.pathname !== '/demo.wasm') return d.ok(new Response(404, 'text/html', Buffer.from('<!DOCTYPE html>')));
        const s = w.fault('status'), m = w.fault('mime');
        d.ok(new Response(s ? s.status : 200, s ? 'text/html' : m ? m.mime : 'application/wasm', body(p)));
      });
      return d.pr;
    }

    const compile = bytes => {
      const d = defer();
      w.at(p.compile, 'compile', () => {
        const f = w.fault('compile');
        if (f) return d.no(wasmError(f.error, 'injected'));
        try { d.ok(modules.get(bytes) || new WebAssembly.Module(bytes)); } catch (e) { d.no(e); }
      });
      return d.pr;
    };
    const instance = (module, imp) => {
      const d = defer();
      w.at(p.instantiate, 'instantiate', () => {
        if (w.fault('memory')) return d.no(new E.RangeError('WebAssembly.Instance(): Out of memory: Cannot allocate Wasm memory for new instance'));
        try {
          let inst = new WebAssembly.Instance(module, imp);
          if (w.fault('trap')) inst = { exports: { ...inst.exports, init() { throw new WebAssembly.RuntimeError('unreachable'); } } };
          else if ((p.screen || 'demo') !== 'demo') {
            const x = inst.exports;
            inst = { exports: { ...x, init() { x.init(); paint(p, new Uint8Array(x.memory.buffer, x.frame_buf_ptr() >>> 0, H * 44)); } } };
          }
          w.instances.push(inst);
          w.ready = true;
          d.ok(inst);
        } catch (e) { d.no(e); }
      });
      return d.pr;
    };
    const bytesOf = b => w.raw.get(b) || w.raw.get(b && b.buffer) || b;
    const WA = Object.create(null);
    for (const k of ['Module', 'Instance', 'Memory', 'Table', 'Global', 'CompileError', 'LinkError', 'RuntimeError', 'validate']) WA[k] = WebAssembly[k];
    WA.compile = b => compile(bytesOf(b));
    WA.instantiate = (b, imp) => b instanceof WebAssembly.Module ? instance(b, imp) : compile(bytesOf(b)).then(module => instance(module, imp).then(instance_ => ({ module, instance: instance_ })));
    const streamed = src => P.resolve(src).then(r => {
      if (!(r instanceof Response)) throw new E.TypeError('not a Response');
      if (!r.ok) throw new E.TypeError('HTTP status code is not ok');
      if (r.type_.toLowerCase() !== 'application/wasm') throw new E.TypeError('Incorrect response MIME type');
      return r.take().then(compile);
    });
    if (p.streaming) {
      WA.compileStreaming = streamed;
      WA.instantiateStreaming = (src, imp) => streamed(src).then(module => instance(module, imp).then(instance_ => ({ module, instance: instance_ })));
    }
    const timers = {
      setTimeout: (f, ms = 0, ...a) => w.at(Math.max(0, ms) * 1000, 'timer', () => f(...a)),
      requestAnimationFrame: f => w.at(16667 - w.now % 16667, 'frame', () => f(w.now / 1000)),
      queueMicrotask: f => { P.resolve().then(f); },
    };
    const quiet = () => {};
    Object.assign(g, {
      document, fetch, WebAssembly: WA, Response, TextDecoder, TextEncoder, URL, console: { log: quiet, error: quiet, warn: quiet, info: quiet, debug: quiet },
      ...timers, clearTimeout: id => w.cancel(id), cancelAnimationFrame: id => w.cancel(id),
      setInterval: (f, ms = 0, ...a) => { const tick = () => { f(...a); if (w.tasks < 300) w.at(Math.max(1, ms) * 1000, 'timer', tick); }; return w.at(Math.max(1, ms) * 1000, 'timer', tick); }, clearInterval: id => w.cancel(id),
      performance: { now: () => w.now / 1000 }, addEventListener: listen, removeEventListener() {}, location: { href: 'http://demo.test/index.html' }, navigator: { userAgent: 'simulated' },
      structuredClone, atob, btoa, AbortController, ImageData, HTMLCanvasElement: Canvas,
      OffscreenCanvas: class extends Canvas { constructor(a, b) { super(w, a, b); } },
    });
    g.window = g.self = g;
    const rnd = new Rng('page/' + p.seed + '/' + p.run);
    vm.runInContext('(function (now, rnd) { Date.now = now; Math.random = rnd; })', g)(() => 1600000000000 + Math.floor(w.now / 1000), () => rnd.u32() / 4294967296);

    const cache = new Map();
    const load = file => {
      if (!cache.has(file)) {
        const src = fs.readFileSync(file, 'utf8');
        cache.set(file, new vm.SourceTextModule(src, { context: g, identifier: file, initializeImportMeta(meta) { meta.url = 'http://demo.test/' + path.relative(demoDir, file); }, importModuleDynamically: async spec => { return w.evaluate(path.resolve(path.dirname(file), spec)); } }));
      }
      return cache.get(file);
    };
    const link = (spec, ref) => load(path.resolve(path.dirname(ref.identifier), spec));
    this.evaluate = async file => {
      const m = load(file);
      if (m.status === 'unlinked') await m.link(link);
      if (m.status === 'linked') m.evaluate().catch(e => { w.unhandled.push(describe(e)); });
      return m;
    };
    for (const s of scripts) this.at(p.start.main, 'main', () => this.evaluate(path.join(demoDir, s)));
    if (p.prober_first) this.at(0, 'prober-loads', () => this.evaluate(path.join(demoDir, 'wasm.js')));
    for (const [t, kind] of p.probes) this.at(p.start.prober + t, 'probe-' + kind, () => this.probe(kind));
    this.at(0, 'loaded', () => { document.readyState = 'complete'; for (const k of ['DOMContentLoaded', 'load']) for (const f of listeners[k] || []) f({ type: k }); });
  }

  // Another script of the page uses wasm.js, too
  async probe(kind) {
    const m = await this.evaluate(path.join(demoDir, 'wasm.js'));
    const ready = this.ready, x = m.namespace;
    if (kind === 'init' && !ready) kind = 'frame';
    try {
      if (kind === 'init') x.init();
      if (kind === 'twice') { try { x.frameBuf(); } catch (e) { /* asked below */ } }
      const f = x.frameBuf();
      if (!ready) { this.bad = this.bad || 'frameBuf() returned before the module was ready'; return; }
      this.late++;
      if (f.lines !== H || f.pxPerLine !== W || f.wordsPerLine !== 11) this.bad = this.bad || 'frameBuf() describes another screen';
      if (kind === 'init' || this.draws.length) {
        const want = wanted(this.p);
        if (!visible(f.bytes, want)) this.bad = this.bad || 'frameBuf() does not show the demo screen';
        // Only after the page has drawn: what is written now never gets on the canvas
        if (kind === 'write' && this.draws.length) {
          const noise = Buffer.from(want).map((b, i) => b ^ (0x5a + 7 * i));
          f.bytes.set(noise);
          if (!visible(x.frameBuf().bytes, noise)) this.bad = this.bad || 'what a script writes into the frame buffer is not there for the next';
          x.init();
          if (!visible(f.bytes, want) || !visible(x.frameBuf().bytes, want)) this.bad = this.bad || 'after init() the frame buffer does not show the demo screen again';
        }
      }
    } catch (e) {
      if (ready && this.draws.length) this.bad = this.bad || 'frameBuf() or init() threw on a ready module: ' + describe(e);
      this.early++;
    }
  }

  async run() {
    await this.start();
    const d = new Digest();
    while (this.queue.length && this.tasks < 400) {
      let k = 0;
      for (let i = 1; i < this.queue.length; i++) {
        const a = this.queue[i], b = this.queue[k];
        if (a[0] < b[0] || (a[0] === b[0] && a[1] < b[1])) k = i;
      }
      const [t, , name, f] = this.queue.splice(k, 1)[0];
      this.now = t;
      this.tasks++;
      this.log.push(name);
      d.add(name);
      try { await f(); } catch (e) { this.unhandled.push(describe(e)); }
      await settle();
      if (this.bad) break;
    }
    this.order = d.hex();
    return this.bad || this.verdict();
  }

  verdict() {
    const p = this.p, k = p.fault && p.fault.kind;
    const c = this.canvas;
    const fails = k && !(k === 'mime' && !p.streaming);
    if (fails || k === 'stall') {
      if (this.draws.length) return 'the page drew although loading failed (' + k + ')';
      if (c) for (let i = 3; i < c.px.length; i += 4) if (c.px[i]) return 'the canvas shows something although loading failed';
      if (k !== 'stall' && !this.unhandled.length) return 'loading failed (' + k + ') and nobody was told';
      return null;
    }
    if (this.unhandled.length) return 'loading succeeded but an error went unhandled: ' + this.unhandled[0];
    if (this.draws.length !== 1) return 'the page drew ' + this.draws.length + ' times';
    if (c.w !== W || c.h !== H) return 'the canvas is ' + c.w + ' by ' + c.h;
    const want = wanted(p);
    for (let y = 0; y < H; y++) for (let x = 0; x < W; x++) {
      const clear = want[y * 44 + (x >> 3)] >> (x & 7) & 1, o = (y * W + x) * 4;
      const ok = clear ? c.px[o + 3] === 0 : c.px[o + 3] === 255 && c.px[o] < 0x80 && c.px[o + 1] < 0x80 && c.px[o + 2] < 0x80;
      if (!ok) return 'pixel ' + x + ',' + y + ' shows rgba(' + c.px.slice(o, o + 4).join(',') + ') for a ' + (clear ? 'clear' : 'set') + ' pixel';
    }
    return null;
  }
}

function visible(a, b) {
  for (let y = 0; y < H; y++) for (let i = 0; i < 42; i++) if (a[y * 44 + i] !== b[y * 44 + i]) return false;
  return true;
}

async function execute(p) {
  const w = new World(p);
  current = w;
  const bad = await w.run();
  await settle();
  current = null;
  return { bad, order: w.order, us: w.now, tasks: w.tasks, fired: w.fired, fault: p.fault && p.fault.kind, early: w.early, late: w.late, drawn: w.draws.length, told: w.unhandled.length,
    state: new Digest().add(w.order).add(w.unhandled.join(';')).add(w.draws.join()).hex(), log: w.log, unhandled: w.unhandled };
}

// Simpler plans to try while minimising
function* simpler(p) {
  const copy = () => JSON.parse(JSON.stringify(p));
  for (let i = 0; i < p.probes.length; i++) { const q = copy(); q.probes.splice(i, 1); yield q; }
  if (p.fault) { const q = copy(); q.fault = null; yield q; }
  if (p.chunks.length > 1) { const q = copy(); q.chunks = [[1, 0]]; yield q; }
  for (const k of ['headers', 'compile', 'instantiate']) if (p[k]) { const q = copy(); q[k] = 0; yield q; }
  for (const k of ['main', 'prober']) if (p.start[k]) { const q = copy(); q.start[k] = 0; yield q; }
  for (let i = 0; i < p.chunks.length; i++) if (p.chunks[i][1]) { const q = copy(); q.chunks[i][1] = 0; yield q; }
  for (let i = 0; i < p.probes.length; i++) if (p.probes[i][0]) { const q = copy(); q.probes[i][0] = 0; yield q; }
  if (!p.streaming) { const q = copy(); q.streaming = true; yield q; }
  if (!p.built) { const q = copy(); q.built = true; yield q; }
  if ((p.screen || 'demo') !== 'demo') { const q = copy(); q.screen = 'demo'; yield q; }
  if (p.prober_first) { const q = copy(); q.prober_first = false; yield q; }
}

module.exports = { setup, plan, execute, simpler, FAULTS };
