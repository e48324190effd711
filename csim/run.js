'use strict';
// node run.js PROP CODEGENDIR WASM WASMEXEC shard SEED FIRST LAST STEP LIMIT [DUMPDIR] | gen SEED RUN | replay FILE | shrink FILE | dump FILE DIR | variants FILE DIR
const fs = require('fs'), path = require('path');
const [, , prop, dir, wasm, execJs, cmd, ...a] = process.argv;
const sim = require('./plan.js');
sim.setup(prop, dir, wasm, execJs);
const say = s => fs.writeSync(1, s + '\n');
const load = f => JSON.parse(fs.readFileSync(f, 'utf8'));

(async () => {
  if (cmd === 'gen') { say(JSON.stringify(await sim.plan(+a[0], +a[1]))); return; }
  if (cmd === 'replay' || cmd === 'dump') {
    const r = cmd === 'dump' ? await sim.dump(load(a[0]), a[1]) : await sim.execute(load(a[0]));
    say('D ' + r.order + ' ' + r.state);
    if (r.bad) { say('V ' + r.bad); process.exitCode = 1; }
    return;
  }
  if (cmd === 'variants') { // C14 is judged by the prober, so is its shrinking
    let i = 0;
    for (const q of sim.simpler(load(a[0]))) fs.writeFileSync(path.join(a[1], i++ + '.json'), JSON.stringify(q));
    say('N ' + i);
    return;
  }
  if (cmd === 'shrink') {
    let p = load(a[0]), tries = 0;
    for (let again = true; again && tries < 400;) {
      again = false;
      for (const q of sim.simpler(p)) {
        tries++;
        let bad = null;
        try { bad = (await sim.execute(q)).bad; } catch (e) { continue; } // not a legal plan any more
        if (bad) { p = q; again = true; break; }
      }
    }
    say(JSON.stringify(p));
    return;
  }
  const [seed, first, last, step, limit] = a.map(Number), dumpDir = a[5];
  const t0 = process.hrtime.bigint();
  const n = { runs: 0, execs: 0, us: 0, tasks: 0, fired: {}, kinds: {}, results: {} };
  const orders = new Set(), states = new Set(), plans = new Set(), digests = [];
  const inc = (o, k, v = 1) => { o[k] = (o[k] || 0) + v; };
  // whole groups of plans that share a world stay in one shard
  const per = { C12: 12, C13: 4, C14: 1, C24: 4, C27: 1, C28: 4 }[prop];
  for (let run = first * per; run < last; run += (run + 1) % per ? 1 : 1 + per * (step - 1)) {
    say('R ' + run);
    if (Number(process.hrtime.bigint() - t0) > limit * 1e9) break;
    const p = await sim.plan(seed, run);
    let r;
    if (dumpDir) {
      const d = path.join(dumpDir, 'run' + run);
      r = await sim.dump(p, d);
      fs.writeFileSync(path.join(d, 'plan.json'), JSON.stringify(p));
    } else r = await sim.execute(p);
    n.runs++; n.execs += r.execs; n.us += r.us; n.tasks += r.tasks;
    for (const k in r.fired) inc(n.fired, k, r.fired[k]);
    inc(n.kinds, r.kind); inc(n.results, r.result);
    orders.add(r.order); states.add(r.state);
    plans.add(JSON.stringify({ ...p, run: 0 }));
    if (run < 400) digests.push(run + ':' + r.order + r.state);
    if (r.bad) { say('V ' + run + '\tviolation\t0\t' + r.bad); return; }
    if (global.gc && n.runs % 20 === 0) global.gc();
  }
  say('S ' + JSON.stringify({ ...n, orders: [...orders], states: [...states], plans: plans.size, digests }));
})().catch(e => { say('H ' + (e && e.stack || e)); process.exitCode = 3; });
