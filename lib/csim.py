"""C12-C14, C24, C27, C28: the font generator (Go) on simulated machines with failing disks"""
import concurrent.futures as cf
import json, os, shutil, subprocess, tempfile, time
import common as c
import dsim

RUNS = dict(C12=3000, C13=1600, C14=120, C24=800, C27=180, C28=800)
CODEGEN = os.path.join(c.REPO, "codegen")
RULE = dict(
    C12=("One run = one seed: a random configuration of fonts (geometry, PNG encoding, index format, aliases, hash seed), files left from earlier runs, a machine "
         "and one class of faults (failing call, several, persistent, full disk, lost write-back, damaged input, no confirmation, crash, memory limit, short and "
         "interrupted calls only). Distinct: by complete plan."),
    C13=("One run = one seed: a random configuration; the output of a calm machine is compared with that of another machine (hash seed, clock, process id, "
         "environment, directory, chunking, interrupted calls, latencies) on a disk with leftovers, after up to two runs that were killed or lost power. Distinct: by complete plan."),
    C24=("One run = one seed: a random configuration of two to five fonts, some of which share a sheet; the files a calm machine writes for all of them in one run are compared "
         "with those of another machine that generates them in another order, one at a time, in groups or together, with runs that are killed or lose power and are repeated. Distinct: by complete plan."),
    C28=("One run = one seed: a random configuration; two to eight runs of the generator in one directory whose system calls a seeded scheduler interleaves (starts, latencies, "
         "stalled processes, short and interrupted calls), some of them killed and followed by another; compared with the files one run writes. Distinct: by complete plan."),
    C27=("One run = one seed: a random configuration of all five fonts, generated like in C13; two thirds of them with one cluster added whose hash is that of another of its block "
         "(computed by running the hash backwards), or with a cluster that stands there twice, in the index or among the aliases. The output is compiled into the library with its own "
         "tests, which are run. Distinct: by complete plan."),
    C14=("One run = one seed: a random configuration of all five fonts, generated like in C13; the output is compiled into the library and every cluster and several "
         "texts per cluster that are not clusters are painted and compared with the sprites. One more run uses the repository's own configuration. Distinct: by complete plan."))
REAL = ["codegen (main.go, lib/*.go) and Go's runtime and standard library, compiled from the working tree for js/wasm"]
STUB = ["disk, clock, timers, random bytes, process and environment of the machine", "configurations, sheets and index files (generated)"]


def go_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO"))}
    e.update(GOOS="js", GOARCH="wasm", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOWORK="off", GOCACHE=os.path.join(c.BUILD, "gocache"),
             GOPATH=os.path.join(c.BUILD, "gopath"), GOTELEMETRY="off", GOENV="off", HOME=e.get("HOME", "/root"))
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e


def overlay(root):
    """Go's runtime with a seeded scheduler: a runnable goroutine goes to a random place in the run queue, and taking a mutex may
    yield first, and it reports between one and sixteen processors. All draw from the runtime's generator, which the simulated machine seeds. The generator's own sources are untouched."""
    edits = {
        "runtime/proc.go": [("""		pp.runq[t%uint32(len(pp.runq))].set(gp)
		atomic.StoreRel(&pp.runqtail, t+1) // store-release""", """		pp.runq[t%uint32(len(pp.runq))].set(gp)
		if t != h {
			k := (h + randn(t-h+1)) % uint32(len(pp.runq))
			pp.runq[t%uint32(len(pp.runq))], pp.runq[k] = pp.runq[k], pp.runq[t%uint32(len(pp.runq))]
		}
		atomic.StoreRel(&pp.runqtail, t+1) // store-release""")],
        "sync/mutex.go": [("func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n	if runtime_randn(2) == 0 {\n		runtime.Gosched()\n	}\n"),
                          ("import (\n", "import (\n	\"runtime\"\n")],
        "runtime/debug.go": [("func NumCPU() int {\n	return int(numCPUStartup)\n}", """var simCPUs int

func simNumCPU() int {
	if simCPUs == 0 {
		simCPUs = 1 + int(randn(16))
	}
	return simCPUs
}

func NumCPU() int {
	return simNumCPU()
}"""), ("	if n <= 0 {\n		unlock(&sched.lock)\n		return ret\n	}\n", "	if n <= 0 {\n		unlock(&sched.lock)\n		return simNumCPU()\n	}\n")],
    }
    d = os.path.join(c.BUILD, "overlay")
    os.makedirs(d, exist_ok=True)
    rep = {}
    for f, es in edits.items():
        src = os.path.join(root, "src", f)
        text = open(src).read()
        for old, new in es:
            if text.count(old) != 1:
                return []
            text = text.replace(old, new)
        to = os.path.join(d, f.replace("/", "_"))
        c.write_if_changed(to, text)
        rep[src] = to
    j = os.path.join(d, "overlay.json")
    c.write_if_changed(j, json.dumps(dict(Replace=rep)))
    return ["-overlay", j]


def build():
    out = os.path.join(c.BUILD, "codegen.wasm")
    root = c.run(["go", "env", "GOROOT"], cwd=CODEGEN, env=go_env()).stdout.strip()
    # One process builds at a time would be nicer still; a private name and a rename keep a reader from seeing half a file
    tmp = "%s.%d" % (out, os.getpid())
    args = ["-trimpath", "-buildvcs=false", "-o", tmp, "."]
    over = overlay(root)
    r = c.run(["go", "build"] + over + args, cwd=CODEGEN, env=go_env())
    if r.returncode and over:
        r = c.run(["go", "build"] + args, cwd=CODEGEN, env=go_env())
    if r.returncode:
        raise c.HarnessError("codegen does not build:\n" + r.stdout[-3000:])
    os.replace(tmp, out)
    for p in ("lib/wasm", "misc/wasm"):
        x = os.path.join(root, p, "wasm_exec.js")
        if os.path.exists(x):
            return out, x
    raise c.HarnessError("no wasm_exec.js in " + root)


def base(prop):
    wasm, execjs = build()
    return ["node", "--expose-gc", "--no-warnings", "--stack-size=4000", os.path.join(c.VERIF, "csim", "run.js"), prop, CODEGEN, wasm, execjs]


class Shard(dsim.Shard):
    CPU = 70  # a run executes the generator several times, and node compiles in the background

    def __init__(self, cmd, first, last, step, limit, *more):
        self.first, self.last, self.step = first, last, step
        self.p = subprocess.Popen(cmd + ["shard", str(c.seed()), str(first), str(last), str(step), str(limit), *more],
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf, self.at, self.lines, self.progress, self.eof = b"", first, [], (time.time(), 0.0), False


def replay_js(cmd, path, cpu=60, into=None):
    try:
        r = c.run_real(cmd + (["dump", path, into] if into else ["replay", path]), cpu)
    except c.Hung:
        return "the generator never ends"
    if r.returncode not in (0, 1):
        raise c.HarnessError("csim: " + r.stdout[-800:])
    v = [l[2:] for l in r.stdout.splitlines() if l.startswith("V ")]
    return v[0] if v else None


# ---- C14: compile and paint
def rustc(args, cwd):
    return c.run(["rustc", "--edition", "2018", "-A", "warnings", "-C", "opt-level=1", "-C", "debuginfo=0"] + args, cwd=cwd, env=c.cargo_env())


def judge(d, ref):
    """(violation or None, counts) for the font files in directory d"""
    src = put_fonts(d)
    if not src:
        return "a font file is missing", {}
    r = rustc(["--crate-type", "rlib", "--crate-name", "blitstr", "-o", os.path.join(d, "libblitstr.rlib"), os.path.join(src, "lib.rs")], d)
    if r.returncode:
        own = rustc(["--crate-type", "rlib", "--crate-name", "blitstr", "-o", os.path.join(d, "own.rlib"), os.path.join(c.REPO, "src", "lib.rs")], d)
        if own.returncode:
            raise c.HarnessError("the library does not compile:\n" + own.stdout[-2000:])
        err = [l for l in r.stdout.splitlines() if l.startswith("error")]
        return "the generated fonts do not compile: " + "; ".join(err[:3]), {}
    p = os.path.join(d, "probe")
    r = rustc(["--extern", "blitstr=" + os.path.join(d, "libblitstr.rlib"), "-o", p, os.path.join(c.VERIF, "csim", "probe", "main.rs")], d)
    if r.returncode:
        raise c.HarnessError("probe does not compile:\n" + r.stdout[-2000:])
    try:
        r = c.run_real([p, ref], 60)
    except c.Hung:
        return "the library hangs with the generated fonts", {}
    v = [l[2:] for l in r.stdout.splitlines() if l.startswith("V ")]
    if v:
        return v[0], {}
    s = [l[2:] for l in r.stdout.splitlines() if l.startswith("S ")]
    if r.returncode or not s:
        return "the library dies with the generated fonts (%s)" % r.returncode, {}
    return None, json.loads(s[0])


def put_fonts(d):
    """The library's sources with the font files of d"""
    src = os.path.join(d, "src")
    shutil.copytree(os.path.join(c.REPO, "src"), src, dirs_exist_ok=True)
    for n in ("emoji", "hanzi", "bold", "regular", "small"):
        f = os.path.join(d, n + ".rs")
        if not os.path.exists(f):
            return None
        shutil.copyfile(f, os.path.join(src, "fonts", n + ".rs"))
    return src


def judge_own_tests(d, _ref=None):
    """C27: do the tests of the generated files tell whether their hashes tell all clusters apart?"""
    e = json.load(open(os.path.join(d, "expect.json")))
    if e["refused"]:
        return None, dict(refused=1)
    src = put_fonts(d)
    if not src:
        return "a font file is missing", {}
    t = os.path.join(d, "t")
    r = rustc(["--test", "--crate-name", "blitstr", "-C", "opt-level=0", "-o", t, os.path.join(src, "lib.rs")], d)
    if r.returncode:
        own = rustc(["--test", "--crate-name", "blitstr", "-C", "opt-level=0", "-o", t, os.path.join(c.REPO, "src", "lib.rs")], d)
        if own.returncode:
            raise c.HarnessError("the library's tests do not compile:\n" + own.stdout[-2000:])
        passed, how = False, "do not compile: " + "; ".join([l for l in r.stdout.splitlines() if l.startswith("error")][:3])
    else:
        try:
            r = c.run_real([t, "fonts::", "--test-threads=1"], 60)
            passed = r.returncode == 0
            how = "fail: " + "; ".join(l for l in r.stdout.splitlines() if l.endswith("... FAILED"))
        except c.Hung:
            passed, how = False, "hang"
    if e["conflict"] == "mixed" and passed:
        return "two clusters with different sprites have one hash in a font file, the generator ends with status 0, and the file's tests pass", {}
    if not e["conflict"] and not passed:
        return "the hashes tell all clusters apart, but the tests of the generated files " + how, {}
    return None, {"conflict_noticed" if e["conflict"] == "mixed" else "tests_passed" if passed else "harmless_conflict": 1}


def judge_plan(cmd, path):
    """Execute and judge one C14 or C27 plan"""
    d = tempfile.mkdtemp(prefix="c14-", dir=c.BUILD)
    try:
        msg = replay_js(cmd, path, 240, d)
        if msg:
            return msg
        p = json.load(open(path))
        if p["prop"] == "C27":
            return judge_own_tests(d)[0]
        repo = p["world"].get("repo")
        return judge(d, c.REF if repo else os.path.join(d, "ref.bin"))[0]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def shrink_judged(cmd, path, seconds=100):
    end = time.time() + seconds
    with cf.ThreadPoolExecutor(c.JOBS) as ex:
        while time.time() < end:
            d = tempfile.mkdtemp(prefix="c14v-", dir=c.BUILD)
            try:
                c.run(cmd + ["variants", path, d])
                fs = sorted((os.path.join(d, f) for f in os.listdir(d)), key=lambda f: int(os.path.basename(f)[:-5]))
                for i in range(0, len(fs), c.JOBS):
                    got = [f for f, m in zip(fs[i:i + c.JOBS], ex.map(lambda f: judge_plan(cmd, f), fs[i:i + c.JOBS])) if m]
                    if got:
                        shutil.copyfile(got[0], path)
                        break
                    if time.time() > end:
                        return
                else:
                    return
            finally:
                shutil.rmtree(d, ignore_errors=True)


def confirm(prop, cmd, shard, kind, info):
    runs = [info[0]] if kind == "violation" else [shard.at]
    for r in runs:
        try:
            text = c.run_real(cmd + ["gen", str(c.seed()), str(r)], 60).stdout
        except c.Hung:
            text = json.dumps(dict(sim="csim", prop=prop, seed=c.seed(), run=r, gen=True))
            raise c.Violation(prop, c.save_replay("%s-seed%d-run%d.json" % (prop, c.seed(), r), text), "the generator never ends, without any fault")
        path = c.save_replay("%s-seed%d-run%d.json" % (prop, c.seed(), r), text)
        msg = replay_js(cmd, path)
        if msg is None:
            continue
        try:
            small = c.run_real(cmd + ["shrink", path], 150).stdout
            p2 = c.save_replay("tmp-%s.json" % prop, small)
            m2 = replay_js(cmd, p2) if small.startswith("{") else None
            if m2:
                c.save_replay(os.path.basename(path), small)
                msg = m2
        except c.Hung:
            pass
        raise c.Violation(prop, path, msg)
    raise c.HarnessError("shard %s %s, but its run does not do so alone" % (kind, info))


def found(prop, cmd, plan, msg):
    path = c.save_replay("%s-seed%d-run%s.json" % (prop, c.seed(), plan["run"]), json.dumps(plan))
    again = judge_plan(cmd, path)
    if again is None:
        raise c.HarnessError("violation does not repeat: " + msg)
    if not plan["world"].get("repo"):
        shrink_judged(cmd, path)
        again = judge_plan(cmd, path) or again
    raise c.Violation(prop, path, again)


def batch(prop, cmd, count, limit, *more):
    shards = [Shard(cmd, i, count, c.JOBS, limit, *more) for i in range(c.JOBS)]
    try:
        r = dsim.watch(shards)
    finally:
        for s in shards:
            if s.p.poll() is None:
                c.stop(s.p)
    if r:
        confirm(prop, cmd, *r)
    tot, orders, states, digests = {}, set(), set(), {}
    for s in shards:
        d = json.loads([l for l in s.lines if l.startswith("S ")][0][2:])
        orders.update(d.pop("orders"))
        states.update(d.pop("states"))
        digests.update(x.split(":") for x in d.pop("digests"))
        dsim.Totals().merge(tot, d)
    return tot, orders, states, digests


def check(prop, tier):
    cmd = base(prop)
    c.log("built")
    deep = tier == "thorough"
    count = RUNS[prop] * (15 if deep else 1)
    limit = 700 if deep else 150
    t = time.time()
    extra, work, ex = {}, None, None
    try:
        more = []
        if prop == "C27":
            work = tempfile.mkdtemp(prefix="c27w-", dir=c.BUILD)
            ex = cf.ThreadPoolExecutor(c.JOBS)
            tot, orders, states, digests, judged = judged_rounds(prop, cmd, count, limit, work, ex, judge_own_tests)
            c.log("%d random configurations tested" % judged["configurations"])
            extra["judged"] = judged
        elif prop == "C14":
            work = tempfile.mkdtemp(prefix="c14w-", dir=c.BUILD)
            more = [work]
            # the repository's own configuration, beside the random ones
            ex = cf.ThreadPoolExecutor(c.JOBS)
            own = os.path.join(work, "own.json")
            with open(own, "w") as f:
                f.write(c.run(cmd + ["gen", str(c.seed()), "-1"]).stdout)
            ownrun = ex.submit(judge_plan, cmd, own)
            tot, orders, states, digests, painted = judged_rounds(prop, cmd, count, limit, work, ex, judge)
            c.log("%d random configurations painted" % painted["configurations"])
            msg = ownrun.result()
            if msg:
                found(prop, cmd, json.load(open(own)), msg)
            extra["painted"] = painted
        else:
            tot, orders, states, digests = batch(prop, cmd, count, limit)
    finally:
        if ex:
            ex.shutdown(wait=True, cancel_futures=True)
        if work:
            shutil.rmtree(work, ignore_errors=True)
    t = time.time() - t
    # The same seeds again, in one fresh process
    some = dict(C12=60, C13=16, C14=8, C24=16, C27=8, C28=16)[prop]
    again = Shard(cmd, 0, some, 1, limit)
    r = dsim.watch([again])
    if r:
        confirm(prop, cmd, *r)
    for x in json.loads([l for l in again.lines if l.startswith("S ")][0][2:])["digests"]:
        k, v = x.split(":")
        if digests.get(k, v) != v:
            raise c.HarnessError("run %s is not deterministic" % k)
    samples = [c.run(cmd + ["gen", str(c.seed()), str(i)]).stdout.strip()[:3000] for i in range(2)]
    c.write_evidence(prop, tier, "exploration", dict(
        evaluations=tot["runs"], distinct_nontrivial=tot["plans"], rule=RULE[prop], samples=samples,
        simulated_runs=tot["runs"], generator_executions=tot["execs"], seeds=tot["runs"], runs_per_hour=int(tot["runs"] / max(t, 1e-9) * 3600),
        simulated_seconds=round(tot["us"] / 1e6, 3), system_calls=tot["tasks"], faults_injected=tot["fired"], plan_kinds=tot["kinds"], outcomes=tot["results"],
        distinct_interleavings=len(orders), interleaving_measure="digest of all system calls, their order and results",
        distinct_states=len(states), state_measure="digest of the font files on the final disk",
        determinism_selfcheck_runs=some, real_components=REAL, stub_components=STUB, **extra),
        ["The js/wasm build of the generator behaves as the native one does with the same system-call results.",
         "Sampling: a clean batch is evidence, not proof."])
    c.log("%s held on %d runs in %.0f s" % (prop, tot["runs"], t))


def judged_rounds(prop, cmd, count, limit, work, ex, judge):
    """Rounds of generated worlds (to bound the disk they take), each compiled and judged"""
    tot, orders, states, digests, painted = {}, set(), set(), {}, dict(configurations=0)
    end = time.time() + limit
    size = 240
    for first in range(0, count, size):
        if time.time() > end:
            break
        n = min(size, count - first)
        # Shard numbering is by group, one run per group here
        shards = [Shard(cmd, first + i, first + n, c.JOBS, limit, work) for i in range(c.JOBS)]
        try:
            r = dsim.watch(shards)
        finally:
            for s in shards:
                if s.p.poll() is None:
                    c.stop(s.p)
        if r:
            confirm(prop, cmd, *r)
        for s in shards:
            d = json.loads([l for l in s.lines if l.startswith("S ")][0][2:])
            orders.update(d.pop("orders"))
            states.update(d.pop("states"))
            digests.update(x.split(":") for x in d.pop("digests"))
            dsim.Totals().merge(tot, d)
        dirs = [os.path.join(work, x) for x in sorted(os.listdir(work), key=lambda x: (len(x), x)) if x.startswith("run")]
        for d, (msg, s) in zip(dirs, ex.map(lambda d: judge(d, os.path.join(d, "ref.bin")), dirs)):
            if msg:
                found(prop, cmd, json.load(open(os.path.join(d, "plan.json"))), msg)
            painted["configurations"] += 1
            for k, v in s.items():
                painted[k] = painted.get(k, 0) + v
        for d in dirs:
            shutil.rmtree(d, ignore_errors=True)
    return tot, orders, states, digests, painted


def replay_file(path):
    p = json.load(open(path))
    cmd = base(p["prop"])
    if p.get("gen"):
        try:
            c.run_real(cmd + ["gen", str(p["seed"]), str(p["run"])], 60)
            msg = None
        except c.Hung:
            msg = "the generator never ends"
    else:
        msg = judge_plan(cmd, path) if p["prop"] in ("C14", "C27") else replay_js(cmd, path)
    print("violated: " + msg if msg else "held")
    return 1 if msg else 0
