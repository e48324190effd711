// The harness and the library as a 32-bit module: node run32.js MODULE REF PROP SEED FIRST LAST STEP
// or node run32.js MODULE REF file TRACEFILE. Prints per run: run, verdict, digest of the state digests.
'use strict';
const fs = require('fs');
const [, , mod, ref, prop, ...a] = process.argv;
const m = new WebAssembly.Module(fs.readFileSync(mod));
const refBytes = fs.readFileSync(ref);
let x;
function fresh() {
  x = new WebAssembly.Instance(m, {}).exports;
  put(refBytes, (p, n) => x.dsim_ref(p, n));
}
function put(bytes, f) {
  const p = x.dsim_alloc(bytes.length);
  new Uint8Array(x.memory.buffer).set(bytes, p >>> 0);
  return f(p, bytes.length);
}
function out() {
  const n = x.dsim_out_len();
  return new BigUint64Array(x.memory.buffer, x.dsim_out_ptr() >>> 0, n);
}
const M = (1n << 64n) - 1n;
function digest(v) {
  let d = 0xcbf29ce484222325n;
  for (const y of v) { d = ((d ^ y) * 0x100000001b3n) & M; d ^= d >> 29n; }
  return d.toString(16).padStart(16, '0');
}
fresh();
if (prop === 'file') {
  let code = 0;
  const traces = fs.readFileSync(a[0], 'utf8').split(/^(?=dsim-trace)/m).filter(s => s.startsWith('dsim-trace'));
  for (const t of traces) {
    try {
      const r = put(Buffer.from(t), (p, n) => x.dsim_trace(p, n));
      for (const d of out()) console.log(d.toString(16).padStart(16, '0'));
      if (r) { console.log('V violated'); code = 1; }
    } catch (e) {
      if (!(e instanceof WebAssembly.RuntimeError)) throw e;
      if (!x.dsim_in_lib()) { console.log('H trap in the harness: ' + e.message); process.exit(3); }
      console.log('V trap at act ' + x.dsim_at() + ': ' + e.message);
      code = 1;
      fresh();
    }
  }
  process.exit(code);
}
const seed = BigInt(a[0]), first = +a[1], last = +a[2], step = +a[3];
const lo = Number(seed & 0xffffffffn), hi = Number(seed >> 32n & 0xffffffffn);
let buf = [];
for (let run = first; run < last; run += step) {
  let v;
  try {
    const r = x.dsim_run(+prop.slice(1), lo | 0, hi | 0, run);
    v = r ? 'violated' : 'held';
  } catch (e) {
    if (!(e instanceof WebAssembly.RuntimeError)) throw e;
    if (!x.dsim_in_lib()) { console.log('H trap in the harness in run ' + run + ': ' + e.message); process.exit(3); }
    v = 'trap';
  }
  // digests up to a trap included
  buf.push(run + ' ' + digest(out()) + ' ' + v);
  if (v === 'trap') fresh();
  if (buf.length >= 50) { console.log(buf.join('\n')); buf = []; }
}
if (buf.length) console.log(buf.join('\n'));
