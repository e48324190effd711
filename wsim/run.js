'use strict';
// node --experimental-vm-modules run.js PROP DEMODIR WASM NATIVE shard SEED FIRST LAST STEP LIMIT | gen SEED RUN | replay FILE | shrink FILE
const fs = require('fs');
const [, , prop, dir, wasm, native, cmd, ...a] = process.argv;
const sim = prop === 'C10' ? require('./page.js') : require('./module.js');
if (prop === 'C10') sim.setup(dir, wasm); else sim.setup(wasm, native);
const say = s => fs.writeSync(1, s + '\n');

(async () => {
  if (cmd === 'log') { say(JSON.stringify(await sim.execute(sim.plan(+a[0], +a[1])))); return; }
  if (cmd === 'gen') { say(JSON.stringify(sim.plan(+a[0], +a[1]))); return; }
  if (cmd === 'replay') {
    const r = await sim.execute(JSON.parse(fs.readFileSync(a[0], 'utf8')));
    say('D ' + r.order + ' ' + r.state);
    if (r.bad) { say('V ' + r.bad); process.exitCode = 1; }
    return;
  }
  if (cmd === 'shrink') {
    let p = JSON.parse(fs.readFileSync(a[0], 'utf8')), tries = 0;
    for (let again = true; again && tries < 600;) {
      again = false;
      for (const q of sim.simpler(p)) {
        tries++;
        if ((await sim.execute(q)).bad) { p = q; again = true; break; }
      }
    }
    say(JSON.stringify(p));
    return;
  }
  const [seed, first, last, step, limit] = a.map(Number);
  const t0 = process.hrtime.bigint();
  const n = { runs: 0, us: 0, tasks: 0, fired: {}, planned: {}, probes: {} };
  const orders = new Set(), states = new Set(), plans = new Set();
  const inc = (o, k, v = 1) => { o[k] = (o[k] || 0) + v; };
  const digests = [];
  for (let run = first; run < last; run += step) {
    if (n.runs % 20 === 0) say('R ' + run);
    if (Number(process.hrtime.bigint() - t0) > limit * 1e9) break;
    const p = sim.plan(seed, run);
    const r = await sim.execute(p);
    n.runs++; n.us += r.us; n.tasks += r.tasks;
    if (typeof r.fired === 'string') inc(n.fired, r.fired);
    else for (const k in r.fired || {}) inc(n.fired, k, r.fired[k]);
    if (r.early) inc(n.probes, 'frame_asked_too_early', r.early);
    if (r.late) inc(n.probes, 'frame_asked_when_ready', r.late);
    if (r.drawn) inc(n.probes, 'drawn');
    if (r.told) inc(n.probes, 'failure_surfaced');
    if (r.inits) inc(n.probes, 'inits', r.inits);
    orders.add(r.order); states.add(r.state);
    plans.add(JSON.stringify({ ...p, run: 0 }));
    if (run < 200) digests.push(run + ':' + r.order + r.state);
    if (r.bad) { say('V ' + run + '\tviolation\t0\t' + r.bad); return; }
  }
  say('S ' + JSON.stringify({ ...n, orders: [...orders], states: [...states], plans: plans.size, digests }));
})().catch(e => { say('H ' + (e && e.stack || e)); process.exitCode = 3; });
