'use strict';
// C12, C13, C14, C24: plans (plain data, the replay file), their execution and their simplification
const fs = require('fs'), path = require('path');
const { Rng, Digest } = require('../wsim/rng.js');
const { Disk } = require('./disk.js');
const host = require('./host.js'), W = require('./world.js');
const PER_WORLD = { C12: 12, C13: 4, C14: 1, C24: 4, C27: 1, C28: 4 };
let prop, repo;
const setup = (p, codegenDir, wasm, execJs) => { prop = p; repo = codegenDir; host.setup(wasm, execJs); };

const ERR = {
  open: ['ENOENT', 'EACCES', 'EMFILE', 'ENFILE', 'EIO', 'ENOMEM', 'ESTALE', 'EROFS', 'EINTR'],
  read: ['EIO', 'EIO', 'ESTALE', 'ENOMEM', 'EINTR'], write: ['EIO', 'ENOSPC', 'EDQUOT', 'EFBIG', 'EPIPE', 'EINTR'], close: ['EIO', 'ENOSPC', 'EINTR'],
  fstat: ['EIO', 'ENOMEM'], stat: ['EACCES', 'EIO'], any: ['EIO', 'EACCES'],
};

function machine(r, calm) {
  const dir = r.pick(['blitstr', 'blit str', 'b', 'checkout-2', 'épée', 'x'.repeat(40)]);
  const m = { rand: r.u32(), cwd: `/home/${r.pick(['u', 'sam', 'runner'])}/${dir}/codegen`, argv: ['--write'], env: {}, pid: 2 + r.below(400000), t0: 1e12 + r.below(2 ** 31) * 400, tz: 0 };
  if (calm) return m;
  m.slow = r.p(0.5);
  m.tz = r.pick([0, -60, 480, -345]);
  for (const [k, v] of [['HOME', '/home/u'], ['LANG', r.pick(['C', 'de_DE.UTF-8', 'tr_TR.UTF-8'])], ['TZ', 'Asia/Kathmandu'], ['GOGC', r.pick(['off', '20', '100', '400'])],
    ['USER', r.pick(['sam', 'root'])], ['SOURCE_DATE_EPOCH', '' + r.u32()], ['TMPDIR', '/tmp'], ['DEBUG', '1'], ['VERBOSE', '1'], ['CI', 'true'], ['HOSTNAME', 'h' + r.below(99)]])
    if (r.p(0.3)) m.env[k] = v;
  return m;
}
function soften(r, m, ops, bytes) { // faults a program must live with
  if (r.p(0.6)) m.maxRead = Math.max(r.pick([1, 7, 64, 511, 4096]), Math.ceil(bytes / 300));
  if (r.p(0.6)) m.maxWrite = Math.max(r.pick([1, 100, 512, 4096]), Math.ceil(bytes / 300));
  for (let n = r.below(4); n > 0; n--) m.faults.push({ at: r.below(ops), do: 'EINTR', soft: 1 });
  for (let n = r.below(9); n > 0; n--) m.faults.push({ at: r.below(ops), do: 'short', n: r.u32() });
  for (let n = r.below(2); n > 0; n--) m.faults.push({ at: r.below(ops), do: 'clock', by: r.pick([-1, 1]) * r.below(1e9) });
}

// ---- disks
const bystanders = { 'main.go': 'package main\n', 'notes.txt': 'mine\n', 'src_data/notes.txt': 'x', '../src/lib.rs': 'mod fonts;\n', '../src/fonts.rs': 'pub mod bold;\n', '../README.md': '#\n',
  '../src/fonts/extra.rs': '// hand written\n', '/tmp/other': 'other', '/tmp/emoji.rs': 'other' };
const worldFiles = w => (w.repo ? repoFiles() : W.files(w));
const outputs = w => (w.repo ? JSON.parse(fs.readFileSync(path.join(repo, 'config.json'))).glyphSets.map(g => g.rustout) : w.sets.map(s => s.out));
function repoFiles() {
  const f = { 'config.json': fs.readFileSync(path.join(repo, 'config.json')) };
  for (const n of fs.readdirSync(path.join(repo, 'src_data'))) f['src_data/' + n] = fs.readFileSync(path.join(repo, 'src_data', n));
  return f;
}
function mkdisk(w, cwd, left, good, damage) {
  const d = new Disk(), at = p => host.resolve(cwd, p), f = worldFiles(w);
  if (damage) hurt(f, w, damage);
  for (const p in f) d.put(at(p), f[p]);
  for (const p in bystanders) d.put(at(p), bystanders[p]);
  d.mkdirs(at('../src/fonts'));
  outputs(w).forEach((p, i) => {
    const g = good && good[p];
    const k = (left || [])[i] || 'absent';
    const now = 4e12; // newer than anything
    if (k === 'absent') return;
    if (k === 'old') d.put(at(p), '// DO NOT MAKE EDITS HERE\npub const DATA: [u32; 0] = [];\n', 0o644, now);
    if (k === 'long') d.put(at(p), Buffer.alloc((g ? g.length : 9000) + 5000, '// old '), 0o644, now);
    if (k === 'empty') d.put(at(p), '', 0o644, now);
    if (k === 'readonly') d.put(at(p), 'old', 0o444, now);
    if (g && k === 'same') d.put(at(p), g, 0o644, now);
    if (g && k === 'samesize') { const b = Buffer.from(g); b.fill('x', b.length >> 1, b.length - (b.length >> 3)); d.put(at(p), b, 0o644, now); }
    if (g && k === 'longer') d.put(at(p), Buffer.concat([g, Buffer.from('// tail\n')]), 0o644, now);
    if (g && k === 'prefix') d.put(at(p), g.subarray(0, g.length >> 1), 0o644, now);
  });
  return d;
}
const LEFT = ['absent', 'absent', 'old', 'long', 'empty', 'same', 'samesize', 'longer', 'prefix'];

// Inputs that are not what they should be
function hurt(f, w, g) {
  if (!f[g.path]) throw new Error('nothing to damage');
  const b = f[g.path], obj = () => JSON.parse(b), put = o => { f[g.path] = Buffer.from(JSON.stringify(o)); };
  if (g.kind === 'missing') delete f[g.path];
  if (g.kind === 'cut') f[g.path] = b.subarray(0, g.n % (b.toString('latin1').trimEnd().length - 1));
  if (g.kind === 'flip') { const c = Buffer.from(b); c[(g.n >>> 3) % b.length] ^= 1 << (g.n & 7); f[g.path] = c; }
  if (g.kind === 'indextype') { const o = obj(); o.glyphSets[g.n % o.glyphSets.length].indexType = g.to; put(o); }
  if (g.kind === 'type') { const o = obj(); const s = o.glyphSets[g.n % o.glyphSets.length]; s[g.field] = { size: 'big', cols: [], name: 7, m3Seed: -1, gutter: '2' }[g.field]; put(o); }
  if (g.kind === 'hex') {
    if (g.path.endsWith('.json')) { const o = obj(); o.map[g.n % o.map.length].hex = g.to; put(o); }
    else f[g.path] = Buffer.from(b.toString().trimEnd() + '\n' + g.to + '\n');
  }
  if (g.kind === 'cell') { const o = obj(); Object.assign(o.map[g.n % o.map.length], g.to); put(o); }
  if (g.kind === 'small') { const s = w.sets.find(s => g.path === 'src_data/' + s.name.toLowerCase() + '.png'); f[g.path] = W.png({ ...s, ...g.to }); }
  if (g.kind === 'alias') f[g.path] = Buffer.from(b.toString().trimEnd() + '\n' + g.to + '\n');
}
function genDamage(r, w) {
  const f = W.files(w), names = Object.keys(f), s = r.pick(w.sets), base = 'src_data/' + s.name.toLowerCase(), json = s.indexType === 'json-grid-coord';
  const index = base + (json ? '_index.json' : '_index.txt'), n = r.u32();
  const l = [
    { kind: 'missing', path: r.pick(names) }, { kind: 'cut', path: base + '.png', n }, { kind: 'flip', path: base + '.png', n }, { kind: 'flip', path: base + '.png', n: n % 400 },
    { kind: 'cut', path: 'config.json', n }, { kind: 'indextype', path: 'config.json', n, to: r.pick(['', 'txt', 'TXT-ROW-MAJOR', 'json']) },
    { kind: 'type', path: 'config.json', n, field: r.pick(['size', 'cols', 'name', 'm3Seed', 'gutter']) },
    { kind: 'hex', path: index, n, to: r.pick(['zz', '1F60G', '21--22', '-21', '1F600 1F601', '0x21', '21_22', '111111111', '110000', 'd800', 'DFFF-21', 'ffffffff', '80000041', 'abc', '21-', '-']) },
  ];
  const use = (f, n) => s.clusters.some(c => c[f] >= n);
  if (s.cols > 1 && use('col', s.cols - 1) && s.png.wide < s.size) l.push({ kind: 'small', path: base + '.png', to: { cols: s.cols - 1 } });
  if (s.rows > 1 && use('row', s.rows - 1) && s.png.extra < s.size + s.gutter) l.push({ kind: 'small', path: base + '.png', to: { rows: s.rows - 1 } });
  if (json) l.push({ kind: 'cut', path: index, n }, { kind: 'cell', path: index, n, to: r.pick([{ row: -1 }, { col: -1 }, { col: s.cols }, { col: s.cols }, { row: s.rows + 50 }, { row: 1e9 }]) });
  if (s.useAliases) {
    const used = new Set([...s.clusters.map(c => c.hex.toLowerCase().replace(/^0+/, '')), ...s.aliases.map(a => a[1].toLowerCase().replace(/^0+/, ''))]);
    let x;
    do x = (0x4E00 + r.below(2000)).toString(16); while (used.has(x));
    l.push({ kind: 'alias', path: base + '_aliases.txt', to: x + ' 1f1e6-1f1e6-1f1e7' }, { kind: 'alias', path: base + '_aliases.txt', to: s.clusters[0].hex + ' g1' });
  }
  return r.pick(l);
}

// ---- fault-free run of a world
let memo = null;
async function reference(w) {
  const key = JSON.stringify(w);
  if (memo && memo.key === key) return memo.ref;
  const m = machine(new Rng('calm'), true), d = mkdisk(w, m.cwd), before = d.files();
  const r = await host.execute(d, m);
  const good = {};
  for (const p of outputs(w)) good[p] = d.get(host.resolve(m.cwd, p));
  let bad = null;
  if (r.state !== 'exited' || r.code !== 0) bad = `fault-free run ends with ${end(r)}`;
  else for (const p in good) if (!good[p] || !good[p].length) bad = `exit status 0 without faults, but ${p} is ${good[p] ? 'empty' : 'missing'}`;
  bad = bad || meddled(before, d, new Set(outputs(w).map(p => host.resolve(m.cwd, p))), r.code === 0);
  memo = { key, ref: { good, bad, ops: r.ops, journal: r.journal, us: r.us, fired: r.fired, m } };
  return memo.ref;
}
const end = r => (r.state === 'exited' ? 'status ' + r.code + (r.err ? ' (' + r.err.trim().split('\n')[0].slice(0, 150) + ')' : '') : r.state === 'endless' ? 'no end after 400000 system calls' : r.state);
function meddled(before, d, outs, clean) {
  const was = new Map(before);
  for (const [p, b] of was) {
    if (outs.has(p)) continue;
    const now = d.get(p);
    if (!now) return `removed ${p}`;
    if (!now.equals(b)) return `changed ${p}`;
  }
  if (clean) for (const [p] of d.files()) if (!was.has(p) && !outs.has(p)) return `left ${p} behind`;
  return null;
}

// ---- plans
async function plan(seed, run) {
  const group = Math.floor(run / PER_WORLD[prop]);
  const w = prop === 'C14' && run < 0 ? { repo: true } : prop === 'C24' ? W.genFamily(new Rng(`world ${prop} ${seed} ${group}`)) : W.genWorld(new Rng(`world ${prop} ${seed} ${group}`), prop === 'C14' || prop === 'C27');
  if (prop === 'C27' && run % 3) W.addConflict(new Rng(`conflict ${seed} ${run}`), w);
  const r = new Rng(`plan ${prop} ${seed} ${run}`);
  const p = { sim: 'csim', prop, seed, run, world: w };
  const ref = w.repo || prop === 'C27' ? { ops: 400, journal: [] } : await reference(w);
  if (ref.bad) return { ...p, kind: 'none', left: [], crashes: [], m: ref.m };
  p.left = outputs(w).map(() => r.pick(LEFT));
  p.m = machine(r);
  p.m.faults = [];
  const bytes = [...Object.values(worldFiles(w)), ...Object.values(ref.good || {})].reduce((a, b) => a + b.length, 0);
  if (prop === 'C24') {
    // The sets in random order, in one or several runs; some of the runs die and are repeated
    const order = w.sets.map((_, i) => i);
    for (let i = order.length - 1; i > 0; i--) { const j = r.below(i + 1); [order[i], order[j]] = [order[j], order[i]]; }
    p.kind = r.pick(['alone', 'together', 'groups', 'groups']);
    p.steps = [];
    while (order.length) {
      const sets = order.splice(0, p.kind === 'alone' ? 1 : p.kind === 'together' ? 9 : 1 + r.below(order.length));
      for (let last = false; !last;) {
        const m = machine(r);
        m.cwd = p.m.cwd;
        m.faults = [];
        last = !r.p(0.25);
        if (last) soften(r, m, ref.ops, bytes);
        else m.faults.push({ at: r.below(ref.ops + 1), do: 'crash', n: r.u32(), ...(r.p(0.3) ? { kill: 1 } : {}) });
        p.steps.push({ sets, m, look: r.u32() });
      }
    }
    return p;
  }
  if (prop === 'C28') {
    // Several runs at the same time; some die, and another starts after that
    p.procs = [];
    for (let n = r.pick([2, 2, 2, 3, 4]); n > 0; n--) {
      const m = machine(r);
      m.cwd = p.m.cwd;
      m.slow = m.slow || r.p(0.6);
      m.faults = [];
      m.start = r.p(0.3) ? 0 : r.below(Math.ceil(ref.us * r.pick([0.1, 1, 20, 100])));
      m.stalls = Array.from({ length: r.below(4) }, () => ({ at: r.below(ref.ops + 2), us: r.below(Math.ceil(ref.us * r.pick([1, 20, 200]))) }));
      const kill = r.p(0.15);
      if (kill) m.faults.push({ at: r.below(ref.ops + 1), do: 'crash', kill: 1, n: r.u32() });
      else if (r.p(0.6)) soften(r, m, ref.ops, bytes);
      p.procs.push(m);
      if (kill) {
        const again = machine(r);
        Object.assign(again, { cwd: p.m.cwd, faults: [], stalls: [], after: p.procs.length - 1 });
        p.procs.push(again);
      }
    }
    p.kind = p.procs.length + '_processes';
    return p;
  }
  if (prop !== 'C12') {
    p.crashes = [];
    for (let n = r.pick([0, 0, 1, 1, 2]); n > 0 && !w.repo; n--) {
      const m = machine(r);
      m.cwd = p.m.cwd;
      m.faults = [{ at: r.below(ref.ops + 1), do: 'crash', n: r.u32(), ...(r.p(0.3) ? { kill: 1 } : {}) }];
      if (r.p(0.2)) m.maxWrite = 512;
      p.crashes.push(m);
    }
    soften(r, p.m, ref.ops, bytes);
    if (w.repo) { p.m.env.GOGC = '200'; if (p.m.maxRead) p.m.maxRead = 4096; if (p.m.maxWrite) p.m.maxWrite = 65536; }
    p.kind = prop === 'C27' ? 'conflict_' + (W.conflict(w) || 'none') : 'soft';
    return p;
  }
  const pickOp = () => {
    const j = ref.journal, op = r.pick(['open', 'read', 'write', 'write', 'close', 'fstat', 'any', 'any']);
    const at = j.map((x, i) => i).filter(i => op === 'any' || (j[i][0] === op && (op !== 'write' || !j[i][1].startsWith('#') || r.p(0.1))));
    const i = at.length ? r.pick(at) : 0;
    return [i, r.pick(ERR[j[i][0]] || ERR.any)];
  };
  const hard = () => { const [at, e] = pickOp(); return { at, do: e }; };
  p.kind = r.pick(['hard', 'hard', 'hard', 'hard', 'several', 'persistent', 'full', 'full', 'lose', 'lose', 'damage', 'damage', 'argv', 'crash', 'memory', 'soft', 'soft', 'soft']);
  switch (p.kind) {
    case 'hard': p.m.faults.push(hard()); break;
    case 'several': for (let n = 2 + r.below(3); n > 0; n--) p.m.faults.push(hard()); soften(r, p.m, ref.ops, bytes); break;
    case 'persistent': {
      const j = ref.journal.filter(x => x[0] === 'open'), [, q] = r.pick(j);
      const rel = q.slice(ref.m.cwd.length - '/codegen'.length), op = r.pick(['open', 'read', 'write', 'close']);
      p.m.faults.push({ from: r.p(0.6) ? 0 : r.below(ref.ops), path: p.m.cwd.slice(0, -'/codegen'.length) + rel, ops: r.p(0.5) ? [op] : ['open', 'read', 'write'], do: r.pick(ERR[op].filter(e => e !== 'EINTR')) });
      break;
    }
    case 'full': {
      const need = Object.values(ref.good).reduce((a, b) => a + b.length, 0);
      p.m.room = r.p(0.2) ? 0 : r.below(need + 200);
      if (r.p(0.3)) p.m.maxWrite = 512;
      break;
    }
    case 'lose': {
      const j = ref.journal.map((x, i) => [x, i]).filter(([x]) => x[0] === 'write' && !x[1].startsWith('#'));
      p.m.faults.push({ at: j.length ? r.pick(j)[1] : 0, do: 'lose', n: r.p(0.5) ? 0 : r.below(8000) });
      break;
    }
    case 'damage': p.damage = genDamage(r, w); break;
    case 'argv': p.m.argv = r.pick([[], [], ['-write'], ['--WRITE'], ['write'], ['--write', '--write'], ['--write', 'x'], ['x', '--write'], ['--write='], ['--write=true'], [''], ['-h'], ['--help'], ['--writ'], ['--write ']]); soften(r, p.m, ref.ops, bytes); break;
    case 'crash': p.m.faults.push({ at: r.below(ref.ops), do: 'crash', n: r.u32(), ...(r.p(0.5) ? { kill: 1 } : {}) }); break;
    case 'memory': p.m.pages = r.pick([1, 24, 64]); break;
    case 'soft': soften(r, p.m, ref.ops, bytes); break;
  }
  if (p.kind !== 'soft' && r.p(0.15)) soften(r, p.m, ref.ops, bytes);
  if (r.p(0.1) && p.left.length && p.kind !== 'soft') p.left[r.below(p.left.length)] = 'readonly';
  return p;
}

// config.json with some of the sets, in their order; keys in any order, empty ones perhaps left out
function subset(w, step) {
  const all = JSON.parse(worldFiles(w)['config.json']), r = new Rng('config ' + step.look);
  const mix = o => { const k = Object.keys(o); for (let i = k.length - 1; i > 0; i--) { const j = r.below(i + 1); [k[i], k[j]] = [k[j], k[i]]; } return Object.fromEntries(k.map(x => [x, o[x]])); };
  const lean = o => Object.fromEntries(Object.entries(o).filter(([, v]) => (v !== '' && v !== 0) || r.p(0.6)));
  return JSON.stringify(mix({ ...all, glyphSets: step.sets.map(i => lean(mix(all.glyphSets[i]))) }), null, r.below(3));
}

// ---- execution: { bad, order, state, us, tasks, fired }
async function execute(p) {
  const out = { bad: null, us: 0, tasks: 0, fired: {}, kind: p.kind, execs: 0 };
  const note = r => { out.us += r.us; out.tasks += r.ops; out.execs++; for (const k in r.fired) out.fired[k] = (out.fired[k] || 0) + r.fired[k]; };
  const dig = new Digest();
  const ref = p.world.repo || p.prop === 'C14' || p.prop === 'C27' ? { good: null } : await reference(p.world);
  if (ref.bad) { out.bad = ref.bad; out.order = out.state = 'ref'; return out; }
  const outs = new Set(outputs(p.world).map(q => host.resolve(p.m.cwd, q)));
  const d = mkdisk(p.world, p.m.cwd, p.left, ref.good, p.damage), before = d.files();
  if (p.damage) out.fired['input_' + p.damage.kind] = 1;
  let r;
  if (p.prop === 'C12') {
    const confirmed = p.m.argv.length === 1 && p.m.argv[0] === '--write';
    r = await host.execute(d, p.m);
    note(r);
    out.bad = meddled(before, d, confirmed ? outs : new Set(), !confirmed || r.code === 0);
    if (out.bad) out.bad = (confirmed ? `a run that ends with ${end(r)} ` : `without --write (arguments ${JSON.stringify(p.m.argv)}): `) + out.bad;
    else if (r.state === 'endless') out.bad = end(r);
    else if (confirmed && r.code === 0) {
      for (const q of outputs(p.world)) {
        const b = d.get(host.resolve(p.m.cwd, q));
        if (!b || !b.equals(ref.good[q])) out.bad = `exit status 0, but ${q} is ${!b ? 'missing' : b.length < ref.good[q].length && ref.good[q].subarray(0, b.length).equals(b) ? 'incomplete' : 'not what a fault-free run writes'}`;
      }
      const ins = Object.keys(worldFiles(p.world)).map(q => host.resolve(p.m.cwd, q));
      for (const f of p.m.faults) if (f.path && !f.from && ins.includes(f.path) && (f.ops.includes('open') || f.ops.includes('read')) && f.do !== 'EINTR') out.bad = `exit status 0 although ${f.path} cannot be read`;
    } else if (confirmed && p.kind === 'soft' && r.state === 'exited' && !p.m.pages) out.bad = `short reads and writes and interrupted calls end it with ${end(r)}`;
    dig.add(r.order + end(r));
    out.result = !confirmed ? 'unconfirmed' : r.state === 'crashed' ? 'crashed' : r.code === 0 ? 'complete' : 'refused';
  } else if (p.procs) {
    const all = await host.executeAll(d, p.procs);
    all.runs.forEach((r, i) => {
      note(r);
      const killed = r.state === 'crashed';
      if (!out.bad && !killed && (r.state !== 'exited' || r.code !== 0)) out.bad = `process ${i} of ${p.procs.length} that run at the same time ends with ${end(r)}`;
    });
    dig.add(all.order);
    out.fired['processes_at_once_' + all.overlap] = 1;
    if (!out.bad) out.bad = meddled(before, d, outs, all.runs.every(r => r.state === 'exited'));
    if (!out.bad) for (const q of outputs(p.world)) {
      const b = d.get(host.resolve(p.m.cwd, q));
      if (!b || !b.equals(ref.good[q])) out.bad = `after ${p.procs.length} overlapping runs ${q} ${!b ? 'is missing' : 'differs from what one run writes, at byte ' + b.findIndex((v, i) => v !== ref.good[q][i])}`;
    }
    out.result = 'complete';
  } else if (p.steps) {
    const known = new Set([...Object.keys(worldFiles(p.world)), ...Object.keys(bystanders), ...outputs(p.world)].map(q => host.resolve(p.m.cwd, q)));
    for (const s of p.steps) {
      d.put(host.resolve(p.m.cwd, 'config.json'), subset(p.world, s));
      const was = d.files().filter(x => known.has(x[0]));
      r = await host.execute(d, s.m);
      note(r); dig.add(r.order + r.state);
      d.settle(); // the next run starts minutes later
      const names = s.sets.map(i => p.world.sets[i].name).join(', ');
      if (r.state === 'crashed' && s.m.faults.some(f => f.do === 'crash')) { out.fired.rerun_after_crash = (out.fired.rerun_after_crash || 0) + 1; continue; }
      if (r.state !== 'exited' || r.code !== 0) { out.bad = `generating ${names}: ends with ${end(r)}`; break; }
      out.bad = meddled(was, d, new Set(s.sets.map(i => host.resolve(p.m.cwd, p.world.sets[i].out))), false);
      if (out.bad) { out.bad = `generating ${names}: ${out.bad}`; break; }
    }
    if (!out.bad) for (const q of outputs(p.world)) {
      const b = d.get(host.resolve(p.m.cwd, q));
      if (!b || !b.equals(ref.good[q])) out.bad = `${q} ${!b ? 'is missing' : 'differs at byte ' + b.findIndex((v, i) => v !== ref.good[q][i])}: generated in runs of ${p.steps.map(s => s.sets.map(i => p.world.sets[i].name).join('+')).join(', ')} instead of ${p.world.sets.map(s => s.name).join('+')}`;
    }
    out.result = 'complete';
  } else {
    const may = p.prop === 'C27' && W.conflict(p.world); // it may refuse such a configuration
    for (const m of p.crashes) {
      const x = await host.execute(d, m);
      note(x); dig.add(x.order + x.state);
      if (x.state === 'exited' && x.code !== 0 && !may) out.bad = `run ends with ${end(x)} without a fault`;
    }
    r = await host.execute(d, p.m);
    note(r); dig.add(r.order + r.state);
    const after = p.crashes.length ? ' after a run that crashed' : '';
    const refused = may && r.state === 'exited' && r.code !== 0;
    if (!out.bad && (r.state !== 'exited' || r.code !== 0) && !refused) out.bad = `run ends with ${end(r)}${after}`;
    if (!out.bad && ref.good) {
      for (const q of outputs(p.world)) {
        const b = d.get(host.resolve(p.m.cwd, q));
        if (!b || !b.equals(ref.good[q])) out.bad = `${q} ${!b ? 'is missing' : 'differs from what a calm machine writes, at byte ' + b.findIndex((v, i) => v !== ref.good[q][i])}${after}`;
      }
    }
    out.result = refused ? 'refused' : 'complete';
    out.refused = refused;
  }
  out.order = dig.hex();
  const st = new Digest();
  for (const [q, b] of d.files()) if (outs.has(q)) st.add(q.split('/').pop()).add(b.length).add(require('crypto').createHash('md5').update(b).digest('hex'));
  out.state = st.hex();
  out.disk = d;
  return out;
}

// C14: what the last run left, for the compiler and the prober
async function dump(p, dir) {
  const o = await execute(p);
  fs.mkdirSync(dir, { recursive: true });
  for (const q of outputs(p.world)) { const b = o.disk && o.disk.get(host.resolve(p.m.cwd, q)); if (b) fs.writeFileSync(path.join(dir, path.basename(q)), b); }
  if (p.prop === 'C27') fs.writeFileSync(path.join(dir, 'expect.json'), JSON.stringify({ conflict: W.conflict(p.world), refused: o.refused }));
  else if (!p.world.repo) fs.writeFileSync(path.join(dir, 'ref.bin'), W.reference(p.world));
  delete o.disk;
  return o;
}

function* simpler(p) {
  const alter = f => { const q = JSON.parse(JSON.stringify(p)); return f(q) === false ? null : q; };
  const all = [];
  const machines = q => (q.procs ? q.procs : q.steps ? q.steps.map(s => s.m) : [q.m, ...(q.crashes || [])]);
  for (let i = 0; i < (p.steps || []).length; i++) all.push(alter(q => {
    const [s] = q.steps.splice(i, 1);
    const done = new Set(q.steps.filter(x => !x.m.faults.some(f => f.do === 'crash')).flatMap(x => x.sets));
    return q.world.sets.every((_, j) => done.has(j));
  }));
  if (p.steps) for (let i = 0; i < p.world.sets.length; i++) if (p.world.sets.length > 1) all.push(alter(q => {
    q.world.sets.splice(i, 1); q.left.splice(i, 1);
    q.steps.forEach(s => { s.sets = s.sets.filter(j => j !== i).map(j => (j > i ? j - 1 : j)); });
    q.steps = q.steps.filter(s => s.sets.length);
  }));
  for (let i = 0; i < (p.crashes || []).length; i++) all.push(alter(q => { q.crashes.splice(i, 1); }));
  for (let i = 0; i < (p.procs || []).length; i++) all.push(alter(q => {
    if (q.procs.some(m => m.after === i) || q.procs.length < 2) return false;
    q.procs.splice(i, 1);
    for (const m of q.procs) if (m.after > i) m.after--;
  }));
  machines(p).forEach((m, k) => {
    (m.stalls || []).forEach((f, i) => all.push(alter(q => { machines(q)[k].stalls.splice(i, 1); })));
    if (m.start) all.push(alter(q => { machines(q)[k].start = 0; }));
    (m.faults || []).forEach((f, i) => { if (f.do !== 'crash') all.push(alter(q => { machines(q)[k].faults.splice(i, 1); })); });
    for (const f of ['maxRead', 'maxWrite', 'slow', 'pages', 'room']) if (m[f] !== undefined && m[f] !== false) all.push(alter(q => { delete machines(q)[k][f]; }));
    if (Object.keys(m.env).length) { all.push(alter(q => { machines(q)[k].env = {}; })); for (const v in m.env) all.push(alter(q => { delete machines(q)[k].env[v]; })); }
  });
  if (p.damage) all.push(alter(q => { delete q.damage; }));
  p.left.forEach((l, i) => { if (l !== 'absent') all.push(alter(q => { q.left[i] = 'absent'; })); });
  if (!p.world.repo) {
    if (p.prop !== 'C14' && p.prop !== 'C27' && !p.steps) for (let i = 0; i < p.world.sets.length; i++) if (p.world.sets.length > 1) all.push(alter(q => { q.world.sets.splice(i, 1); q.left.splice(i, 1); }));
    if (!p.world.sets.some(s => s.base)) p.world.sets.forEach((s, i) => {
      const latin = ['Bold', 'Regular', 'Small'].includes(s.name);
      if (s.aliases.length) all.push(alter(q => { q.world.sets[i].aliases = []; }), alter(q => { q.world.sets[i].aliases.length >>= 1; }), alter(q => { q.world.sets[i].aliases.shift(); }));
      if (s.clusters.length > (latin ? 4 : 1)) all.push(alter(q => {
        const t = q.world.sets[i];
        const used = new Set(t.aliases.map(a => a[0]));
        const keep = Math.max(latin ? 4 : 1, t.clusters.length >> 1);
        const gone = t.clusters.slice(keep);
        if (gone.some(c => used.has(c.hex) || ['20', 'FFFD'].includes(c.hex.toUpperCase().replace(/^0+/, '')))) return false;
        t.clusters.length = keep;
      }));
    });
  }
  for (const q of all) if (q) yield q;
}
module.exports = { setup, plan, execute, dump, simpler };
