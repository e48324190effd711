'use strict';
// C11: hosts that share memory with instances of the demo module
const fs = require('fs');
const { Rng, Digest } = require('./rng.js');
const H = 536, SIZE = H * 44;
let module_, native;
function setup(wasmPath, nativePath) {
  module_ = new WebAssembly.Module(fs.readFileSync(wasmPath));
  native = fs.readFileSync(nativePath);
}
const FAULTS = ['garbage', 'torn', 'fill', 'bit', 'word', 'grow', 'grow_refused', 'crash', 'restore', 'scribble_added'];

function plan(seed, run) {
  const r = new Rng('C11/' + seed + '/' + run);
  const n = 1 + r.below(3);
  const p = { sim: 'wsim', prop: 'C11', seed, run, hosts: n, ops: [] };
  const on = FAULTS.filter(() => r.p(0.6));
  const rate = r.pick([0.2, 0.5, 0.8]);
  for (let i = 1 + r.below(24); i > 0; i--) {
    const h = r.below(n);
    if (!on.length || !r.p(rate)) { p.ops.push({ op: 'init', h }); continue; }
    const op = r.pick(on), o = { op, h };
    if (op === 'garbage') { o.at = r.below(SIZE); o.len = 1 + r.below(r.pick([8, 400, SIZE])); o.key = r.u32(); }
    if (op === 'torn') { o.at = r.below(SIZE); o.key = r.u32(); }
    if (op === 'fill') o.value = r.pick([0, 255, 0x55, r.below(256)]);
    if (op === 'bit') { o.at = r.below(SIZE); o.bit = r.below(8); }
    if (op === 'word') { o.at = 4 * r.below(SIZE / 4); o.value = r.pick([0, 0xffffffff, 0xffff0000, 0x0000ffff]); }
    if (op === 'grow') o.pages = 1 + r.below(3);
    if (op === 'restore') o.from = r.below(n);
    if (op === 'scribble_added') o.key = r.u32();
    p.ops.push(o);
  }
  p.ops.push({ op: 'init', h: r.below(n) });
  // A host that initialises for a long time
  if (r.p(0.02)) {
    const i = r.below(p.ops.length);
    p.ops.splice(i, 0, { op: 'init', h: r.below(n), times: 2 + r.below(r.pick([20, 300, 1200])) });
  }
  return p;
}

async function execute(p) {
  const d = new Digest(), hosts = [], fired = {};
  let inits = 0, bad = null;
  const boot = () => {
    const x = new WebAssembly.Instance(module_, { js: { js_log_trace() {} } }).exports;
    return { x, ptr: x.frame_buf_ptr() >>> 0, base: x.memory.buffer.byteLength, old: null, added: null, inits: 0 };
  };
  const fb = h => new Uint8Array(h.x.memory.buffer, h.ptr, SIZE);
  const add = h => h.added = Buffer.from(new Uint8Array(h.x.memory.buffer, h.base));
  const state = new Digest();
  for (let i = 0; i < p.ops.length && !bad; i++) {
    const o = p.ops[i];
    const h = hosts[o.h] || (hosts[o.h] = boot());
    d.add(o.op + o.h);
    if (o.op !== 'init') fired[o.op] = (fired[o.op] || 0) + 1;
    const say = t => { bad = bad || 'op ' + i + ' (' + o.op + ' on host ' + o.h + '): ' + t; };
    if (h.ptr % 4 || h.ptr + SIZE > h.x.memory.buffer.byteLength) { say('frame buffer at ' + h.ptr + ' is not inside the memory of ' + h.x.memory.buffer.byteLength + ' bytes'); break; }
    if (o.op === 'garbage' || o.op === 'torn') {
      const r = new Rng('g' + o.key), v = fb(h);
      const end = o.op === 'torn' ? SIZE : Math.min(SIZE, o.at + o.len);
      // torn: a stale frame was written back up to a point only
      for (let k = o.at; k < end; k++) v[k] = o.op === 'torn' && h.old ? h.old[k] : r.u32();
    } else if (o.op === 'fill') fb(h).fill(o.value);
    else if (o.op === 'bit') fb(h)[o.at] ^= 1 << o.bit;
    else if (o.op === 'word') new DataView(h.x.memory.buffer).setUint32(h.ptr + o.at, o.value, true);
    else if (o.op === 'grow') { try { h.x.memory.grow(o.pages); add(h); } catch (e) { /* a limit of the module */ } }
    else if (o.op === 'grow_refused') { try { h.x.memory.grow(70000); } catch (e) { /* expected */ } }
    else if (o.op === 'crash') hosts[o.h] = boot();
    else if (o.op === 'restore') { if (hosts[o.from]) fb(h).set(fb(hosts[o.from])); }
    else if (o.op === 'scribble_added') {
      const r = new Rng('s' + o.key), v = new Uint8Array(h.x.memory.buffer, h.base);
      for (let k = 0; k < v.length; k += 1 + r.below(997)) v[k] = r.u32();
      if (v.length) add(h);
    } else {
      h.old = Buffer.from(fb(h));
      inits += o.times || 1;
      try { for (let k = o.times || 1; k > 0; k--) h.x.init(); } catch (e) { say('init trapped: ' + e.message); break; }
      const ptr = h.x.frame_buf_ptr() >>> 0;
      if (ptr !== h.ptr) { say('frame buffer moved from ' + h.ptr + ' to ' + ptr); break; }
      const v = fb(h);
      for (let y = 0; y < H && !bad; y++) for (let k = 0; k < 42; k++) if (v[y * 44 + k] !== native[y * 44 + k]) { say('line ' + y + ' byte ' + k + ' shows ' + v[y * 44 + k] + ', natively ' + native[y * 44 + k]); break; }
      if (h.added && !h.added.equals(Buffer.from(new Uint8Array(h.x.memory.buffer, h.base, h.added.length)))) say('memory added by the host changed');
    }
    let s = 0;
    const v = fb(hosts[o.h]);
    for (let k = 0; k < SIZE; k += 4) s = Math.imul(s ^ (v[k] | v[k + 1] << 8 | v[k + 2] << 16 | v[k + 3] << 24), 0x01000193);
    state.add(s);
  }
  return { bad, order: d.hex(), us: 0, tasks: p.ops.length, fired, inits, state: state.hex() };
}

function* simpler(p) {
  for (let n = Math.max(1, p.ops.length >> 1); n >= 1; n >>= 1)
    for (let i = 0; i + n <= p.ops.length; i += n) { const q = JSON.parse(JSON.stringify(p)); q.ops.splice(i, n); if (q.ops.length) yield q; }
  for (let i = 0; i < p.ops.length; i++) {
    for (const t of [1, p.ops[i].times >> 1, p.ops[i].times - 1]) if (p.ops[i].times > 1 && t > 0) { const q = JSON.parse(JSON.stringify(p)); q.ops[i].times = t; yield q; }
  }
  if (p.hosts > 1) { const q = JSON.parse(JSON.stringify(p)); q.hosts = 1; for (const o of q.ops) { o.h = 0; if (o.from) o.from = 0; } yield q; }
}
module.exports = { setup, plan, execute, simpler, FAULTS };
