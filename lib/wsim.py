"""C10, C11: the demo page in a simulated browser, the demo module under simulated hosts"""
import json, os, subprocess, time
import common as c
import dsim

RUNS = dict(C10=8000, C11=16000)
RULE = dict(
    C10=("One run = one seed: load order, latencies of every step (cache hits to a minute), body chunking, streaming or not, another script of the "
         "page that asks for the frame buffer at random moments, the screen the module paints (the demo or a random one), and at most one fault; the discrete-event scheduler settles every promise. "
         "Distinct: by complete plan."),
    C11=("One run = one seed: a history of initialisations of up to three instances with host writes, torn writes, restored frames, memory growth "
         "and crashes in between. Distinct: by complete history."))
REAL = dict(C10=["main.js, wasm.js, index.html", "demo.wasm built from the working tree", "committed demo.wasm (15 % of the runs)", "V8's WebAssembly and promises"],
            C11=["demo.wasm built from the working tree (wasm_demo/src and the library)", "native library for the expected screen"])
STUB = dict(C10=["fetch and Response", "document and canvas", "when a compilation or instantiation settles", "timers and clock", "random screens over the demo's (40 % of the runs)"],
            C11=["host page (seeded script)"])


class Shard(dsim.Shard):
    CPU = 45

    def __init__(self, base, prop, first, last, step, limit):
        self.first, self.last, self.step, self.prop = first, last, step, prop
        self.p = subprocess.Popen(base + ["shard", str(c.seed()), str(first), str(last), str(step), str(limit)],
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf, self.at, self.lines, self.progress, self.eof = b"", first, [], (time.time(), 0.0), False


def base(prop):
    wasm = c.build_wasm("demo")
    native = os.path.join(c.BUILD, "demofb-%s.bin" % prop)
    b = c.build_dsim("checked")
    if prop == "C11":
        try:
            r = c.run_real([b, "demofb", c.REF, native])
        except c.Hung as e:
            raise c.Violation(prop, c.save_replay("C11-demo.txt", str(e)), "the native demo never returns")
        if r.returncode:
            raise c.Violation(prop, c.save_replay("C11-demo.txt", "dsim demofb: exit %s\n" % r.returncode), "the native demo does not draw its screen")
    return ["node", "--experimental-vm-modules", "--no-warnings", os.path.join(c.VERIF, "wsim", "run.js"),
            prop, os.path.join(c.REPO, "wasm_demo"), wasm, native]


def replay(cmd, path, cpu=15):
    try:
        r = c.run_real(cmd + ["replay", path], cpu)
    except c.Hung:
        return "the page or module never returns", ""
    if r.returncode not in (0, 1):
        raise c.HarnessError("wsim replay: " + r.stdout[-800:])
    v = [l[2:] for l in r.stdout.splitlines() if l.startswith("V ")]
    return (v[0] if v else None), r.stdout


def confirm(prop, cmd, shard, kind, info):
    runs = [info[0]] if kind == "violation" else range(shard.at, min(shard.last, shard.at + 20 * shard.step), shard.step)
    for r in runs:
        text = c.run(cmd + ["gen", str(c.seed()), str(r)]).stdout
        path = c.save_replay("%s-seed%d-run%d.json" % (prop, c.seed(), r), text)
        msg, _ = replay(cmd, path)
        if msg is None:
            continue
        try:
            small = c.run_real(cmd + ["shrink", path], 120).stdout
            p2 = c.save_replay("tmp.json", small)
            m2, _ = replay(cmd, p2)
            if m2:
                c.save_replay(os.path.basename(path), small)
                msg = m2
        except c.Hung:
            pass
        raise c.Violation(prop, path, msg)
    if kind == "violation":
        raise c.Violation(prop, path, info[4] + " (only after other runs in the same process)")
    raise c.HarnessError("shard %s, but none of its runs does so alone" % kind)


def check(prop, tier):
    cmd = base(prop)
    c.log("built")
    count = RUNS[prop] * (20 if tier == "thorough" else 1)
    limit = 780 if tier == "thorough" else 200
    t = time.time()
    n = c.JOBS
    shards = [Shard(cmd, prop, i, count, n, limit) for i in range(n)]
    try:
        r = dsim.watch(shards)
    finally:
        for s in shards:
            if s.p.poll() is None:
                c.stop(s.p)
    if r:
        confirm(prop, cmd, *r)
    t = time.time() - t
    tot, orders, states, digests = {}, set(), set(), {}
    add = dsim.Totals().merge
    for s in shards:
        d = json.loads([l for l in s.lines if l.startswith("S ")][0][2:])
        orders.update(d.pop("orders"))
        states.update(d.pop("states"))
        for x in d.pop("digests"):
            k, v = x.split(":")
            digests[int(k)] = v
        add(tot, d)
    # The same seeds again in one fresh process, in another order
    again = Shard(cmd, prop, 0, min(60, count), 1, limit)
    r = dsim.watch([again])
    if r:
        confirm(prop, cmd, *r)
    for x in json.loads([l for l in again.lines if l.startswith("S ")][0][2:])["digests"]:
        k, v = x.split(":")
        if int(k) in digests and digests[int(k)] != v:
            raise c.HarnessError("run %s is not deterministic" % k)
    samples = [c.run(cmd + ["gen", str(c.seed()), str(i)]).stdout.strip() for i in range(3)]
    c.write_evidence(prop, tier, "exploration", dict(
        evaluations=tot["runs"], distinct_nontrivial=tot["plans"], rule=RULE[prop], samples=samples,
        simulated_runs=tot["runs"], seeds=tot["runs"], runs_per_hour=int(tot["runs"] / max(t, 1e-9) * 3600),
        simulated_seconds=round(tot["us"] / 1e6, 3), acts=tot["tasks"], faults_injected=tot["fired"], rare_conditions=tot["probes"],
        distinct_interleavings=len(orders), interleaving_measure="digest of the order of tasks the scheduler ran",
        distinct_states=len(states), state_measure="digest of order, errors and draws" if prop == "C10" else "digest of the frame buffer after each step",
        determinism_selfcheck_runs=min(60, count), real_components=REAL[prop], stub_components=STUB[prop]),
        ["The stubs behave as the HTML, Fetch and WebAssembly standards say." if prop == "C10" else "Hosts write only into the frame buffer and into memory they added.",
         "Sampling: a clean batch is evidence, not proof."])
    c.log("%s held on %d runs in %.0f s" % (prop, tot["runs"], t))


def replay_file(path):
    prop = json.load(open(path))["prop"]
    msg, out = replay(base(prop), path)
    print(out.strip() if not msg else "violated: " + msg)
    return 1 if msg else 0
