"""C01-C09, C15, C20-C23: painters, network and display simulated; real library code.

Shard processes execute seeded runs. A violation is minimised, written to a
replay file, and replayed in a fresh process before it is reported.
"""
import glob, json, os, selectors, struct, subprocess, time
import common as c

# runs in the quick tier; thorough: 20 times that
RUNS = dict(C01=150000, C02=50000, C03=45000, C04=260000, C05=200000, C06=130000, C07=30000, C08=55000, C09=40000, C15=60000, C20=60000, C21=120000, C22=80000, C23=120000, C26=12000)
BUILDS = dict(C20="watch", C26="steps")  # others: checked
LONG_RUNS = 1 << 40  # runs from here on: every other one has a text of tens of thousands of characters
RULE = ("One run = one seed: swarm-style choice of painters, windows, text pools, message latency and fault rates; "
        "the discrete-event simulator decides every delivery order, loss, duplication, corruption, stall, partition and crash; "
        "the resulting call history is executed on the real library. Non-trivial: at least two calls that reach the frame buffer. "
        "Distinct: by digest of the complete ordered history with all arguments.")
REAL = ["blitstr library (paint_str, clear_region, ClipRect, Cursor, GlyphStyle, demo) from the working tree, all five fonts"]
STUB = ["painters (seeded scripts)", "message network", "display server loop", "clock (simulated microseconds)"]


class Shard:
    def __init__(self, binary, prop, seed, first, last, step, limit, tag):
        self.first, self.last, self.step = first, last, step
        self.binary, self.prop, self.seed = binary, prop, seed
        self.out = os.path.join(c.BUILD, "out-%s-%s-%d.bin" % (prop, tag, first))
        self.p = subprocess.Popen([binary, "shard", c.REF, prop, str(seed), str(first), str(last), str(step), self.out, str(limit)],
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.at = first
        self.lines = []
        self.progress = (time.time(), 0.0)
        self.eof = False

    def read(self):
        try:
            d = os.read(self.p.stdout.fileno(), 1 << 16)
        except BlockingIOError:
            return
        if not d:
            self.eof = True
            return
        self.progress = (time.time(), c.cpu_seconds(self.p.pid))
        self.buf += d
        *ls, self.buf = self.buf.split(b"\n")
        for l in ls:
            l = l.decode("utf-8", "replace")
            if l.startswith("R "):
                self.at = int(l[2:])
            else:
                self.lines.append(l)

    CPU = 20  # seconds without progress

    def hung(self):
        return time.time() - self.progress[0] > self.CPU + 5 and c.cpu_seconds(self.p.pid) - self.progress[1] > self.CPU


def watch(shards):
    """Until every shard is done or one has something: (shard, kind, info)"""
    sel = selectors.DefaultSelector()
    for s in shards:
        sel.register(s.p.stdout, selectors.EVENT_READ, s)
    left = set(shards)
    try:
        while left:
            for k, _ in sel.select(timeout=2):
                s = k.data
                s.read()
                for l in s.lines:
                    if l.startswith("V "):
                        run, cls, at, msg = l[2:].split("\t") if "\t" in l else (l, "", "", "")
                        return s, "violation", (int(run.split()[0]), run.split(None, 1)[1] if " " in run else cls, cls, at, msg)
                    if l.startswith("H "):
                        raise c.HarnessError(l)
                if s.eof:
                    sel.unregister(s.p.stdout)
                    left.discard(s)
                    rc = s.p.wait()
                    if rc < 0 or not any(l.startswith("S ") for l in s.lines):
                        return s, "died", rc
            for s in left:
                if s.hung():
                    return s, "hung", None
        return None
    finally:
        sel.close()


def one_line(out):
    for l in out.splitlines():
        if l.startswith("V "):
            head, cls, at, msg = l[2:].split("\t")
            return head, cls, at, msg
    return None


def replay(binary, path, limit=20):
    """('held'|'violated'|'hung'|'died', class, msg) in a fresh process"""
    p = subprocess.Popen([binary, "replay", c.REF, path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    end = time.time() + 10 * limit
    while True:
        try:
            out, _ = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if c.cpu_seconds(p.pid) > limit:
                c.stop(p)
                return "hung", "hang", "no return after %d s of CPU time" % limit
            if time.time() > end:
                c.stop(p)
                raise c.HarnessError("replay starved: " + path)
    if p.returncode == 0:
        return "held", "", ""
    if p.returncode == 1:
        _, cls, at, msg = one_line(out)
        return "violated", cls, "act %s: %s" % (at, msg)
    if p.returncode < 0:
        return "died", "abort", "process ended by signal %d" % -p.returncode
    raise c.HarnessError("replay of %s failed: %s" % (path, out[-500:]))


def header(prop, kind, cls, msg, build):
    return ("# Violation of %s (%s: %s)\n# %s\n# Replay: ./replay <this file>   (build %s)\n"
            % (prop, kind, cls, msg, build))


def ddmin(items, fails, budget):
    size = max(1, len(items) // 2)
    end = time.time() + budget
    while True:
        i = 0
        while i < len(items) and time.time() < end:
            cand = items[:i] + items[i + size:]
            if cand and fails(cand):
                items = cand
            else:
                i += size
        if size == 1 or time.time() > end:
            return items
        size //= 2


def confirm(prop, shard, kind, info, build):
    """Minimise, write the replay file, replay it; raises Violation"""
    b = shard.binary
    gen = lambda r: c.run([b, "gen", c.REF, prop, str(shard.seed), str(r)]).stdout
    name = "%s-seed%d" % (prop, shard.seed)
    if kind in ("hung", "died"):
        # Which of the runs since the last sign of life?
        for r in range(shard.at, min(shard.last, shard.at + 9 * shard.step), shard.step):
            path = c.save_replay("%s-run%d.trace" % (name, r), "# build %s\n" % build + gen(r))
            k, cls, msg = replay(b, path, 6)
            if k != "held":
                lines = open(path).read().splitlines()
                head = [l for l in lines if not l.startswith("@") and not l.startswith("#")]
                acts = [l for l in lines if l.startswith("@")]

                def fails(cand):
                    c.save_replay("tmp.trace", "\n".join(head + cand) + "\n")
                    return replay(b, os.path.join(c.REPLAY, "tmp.trace"), 2)[0] == k
                acts = ddmin(acts, fails, 90)
                c.save_replay(os.path.basename(path), header(prop, k, cls, msg, build) + "\n".join(head + acts) + "\n")
                if replay(b, path, 6)[0] == k:
                    raise c.Violation(prop, path, "%s: %s" % (cls, msg))
        r, cls, msg = shard.at, kind, "shard process %s" % kind
    else:
        r, _, cls, at, msg = info
        path = c.save_replay("%s-run%d.trace" % (name, r), gen(r))
        k, cls2, msg2 = replay(b, path)
        if k == "violated":
            try:
                small = c.run_real([b, "shrink", c.REF, path, cls2], 60).stdout
            except c.Hung:
                small = open(path).read()
            c.save_replay("tmp.trace", small)
            k3, cls3, msg3 = replay(b, os.path.join(c.REPLAY, "tmp.trace"))
            if k3 == "violated":
                c.save_replay(os.path.basename(path), header(prop, k3, cls3, msg3, build) + small)
                msg2, cls2 = msg3, cls3
            raise c.Violation(prop, path, "%s: %s" % (cls2, msg2))
    # Alone it holds: state carried over from earlier runs in the process?
    runs = list(range(shard.first, r + 1, shard.step))
    cache = {}

    def text(rs):
        for x in rs:
            if x not in cache:
                cache[x] = gen(x)
        return "".join(cache[x] for x in rs)

    def fails(rs):
        c.save_replay("tmp.trace", text(rs))
        return replay(b, os.path.join(c.REPLAY, "tmp.trace"))[0] != "held"
    runs = runs[-3000:]
    # Shortest suffix that fails, by doubling, then drop runs from it
    n = 2
    while n < len(runs) and not fails(runs[-n:]):
        n *= 4
    keep = runs[-n:]
    if fails(keep):
        keep = ddmin(keep, fails, 60)
        path = c.save_replay("%s-run%d-history.trace" % (name, r), header(prop, "history of runs", cls, msg, build) + text(keep))
        raise c.Violation(prop, path, "%s: %s (needs %d runs in one process)" % (cls, msg, len(keep)))
    path = c.save_replay("%s-run%d-unstable.trace" % (name, r), header(prop, "not repeatable", cls, msg, build) + gen(r))
    raise c.Violation(prop, path, "%s: %s (did not repeat in a fresh process: nondeterministic code)" % (cls, msg))


def regress(prop, binary, build):
    n = 0
    for f in sorted(glob.glob(os.path.join(c.VERIF, "dsim", "regress", prop + "-*.trace"))):
        k, cls, msg = replay(binary, f)
        n += 1
        if k != "held":
            p = c.save_replay("%s-regress-%s" % (prop, os.path.basename(f)), header(prop, k, cls, msg, build) + open(f).read())
            raise c.Violation(prop, p, "%s: %s" % (cls, msg))
    return n


class Totals:
    def __init__(self):
        self.n = {}
        self.sets = [set(), set(), set()]
        self.samples = []

    def add(self, shard):
        for l in shard.lines:
            if l.startswith("S "):
                self.merge(self.n, json.loads(l[2:]))
            elif l.startswith("T ") and len(self.samples) < 3:
                self.samples.append(l[2:].replace("\\n", "\n").replace("\\\\", "\\"))
        with open(shard.out, "rb") as f:
            for s in self.sets:
                n, = struct.unpack("<Q", f.read(8))
                s.update(struct.unpack("<%dQ" % n, f.read(8 * n)))
        os.unlink(shard.out)

    def merge(self, a, b):
        for k, v in b.items():
            if isinstance(v, dict):
                self.merge(a.setdefault(k, {}), v)
            else:
                a[k] = a.get(k, 0) + v


def batch(prop, binary, build, first, count, limit, tot, jobs=None):
    """Runs first..first+count of the property, in parallel"""
    jobs = jobs or c.JOBS
    shards = [Shard(binary, prop, c.seed(), first + i, first + count, jobs, limit, build) for i in range(jobs)]
    try:
        r = watch(shards)
    finally:
        for s in shards:
            if s.p.poll() is None:
                c.stop(s.p)
    if r:
        confirm(prop, r[0], r[1], r[2], build)
    for s in shards:
        tot.add(s)


def determinism(prop, binary, n):
    """The same seeds twice, in fresh processes and with another sharding: same histories, same states"""
    a = c.run_real([binary, "digest", c.REF, prop, str(c.seed()), "0", str(n), "1"]).stdout.splitlines()
    b = []
    for i in range(3):
        b += c.run_real([binary, "digest", c.REF, prop, str(c.seed()), str(i), str(n), "3"]).stdout.splitlines()
    key = lambda l: int(l.split()[0])
    if len(a) != n or [l.split()[1] for l in a] != [l.split()[1] for l in sorted(b, key=key)]:
        raise c.HarnessError("simulator is not deterministic")
    for x, y in zip(a, sorted(b, key=key)):
        if x != y:
            return int(x.split()[0])
    return None


def selfcheck(prop, binary, n):
    try:
        d = determinism(prop, binary, n)
    except c.Hung as e:
        raise c.Violation(prop, c.save_replay("%s-hang.txt" % prop, str(e) + "\n"), "hang: %s" % e)
    if d is not None:
        class S:
            pass
        s = S()
        s.binary, s.seed, s.first, s.step = binary, c.seed(), 0, 1
        confirm(prop, s, "violation", (d, "", "nondeterministic", "0", "two executions of one history differ"), BUILDS.get(prop, "checked"))
    return 2 * n


def coverage(prop, tot, t, extra):
    n = tot.n
    runs = n["runs"]
    cov = dict(
        evaluations=runs, distinct_nontrivial=len(tot.sets[0]), rule=RULE, samples=tot.samples,
        simulated_runs=runs, seeds=runs, runs_per_hour=int(runs / max(t, 1e-9) * 3600),
        simulated_seconds=round(n["sim_us"] / 1e6, 3), acts=n["acts"], frame_buffer_calls=n["calls"], characters_painted=n["chars"],
        faults_injected=n["faults"], runs_with_fault=n["fault_runs"], rare_conditions=n["probes"],
        distinct_interleavings=len(tot.sets[1]), interleaving_measure="digest of the order of (painter, kind of call)",
        distinct_states=len(tot.sets[2]), state_measure="digest of frame buffer and all cursors after each call (at most 2 million per process)",
        real_components=REAL, stub_components=STUB)
    cov.update(extra)
    return cov


ASSUME = ["Reference sprites and cluster tables in ref/fonts.bin (extracted from the PNG sheets and index files) are the intended fonts.",
          "Texts in which a 32-bit hash collision occurs are not generated; they are the known finding.",
          "Sampling: a clean batch is evidence, not proof."]


def builder(build):
    if build == "watch":
        import tsim
        return tsim.build("watch")
    if build == "steps":
        return c.build_steps()
    return c.build_dsim(build)


def check(prop, tier):
    build = BUILDS.get(prop, "checked")
    binary = builder(build)
    c.log("built")
    extra = {"regression_replays": regress(prop, binary, build)}
    count = RUNS[prop] * (20 if tier == "thorough" else 1)
    limit = 780 if tier == "thorough" else 240
    tot = Totals()
    t = time.time()
    if prop == "C05":
        import wasm32
        rel = c.build_dsim("release")
        extra["regression_replays"] += regress(prop, rel, "release")
        batch(prop, binary, "checked", 0, count // 2, limit, tot)
        batch(prop, rel, "release", count // 2, count // 2, limit, tot)
        batch(prop, c.build_dsim("plain"), "plain", LONG_RUNS, count // 1000, limit, tot)
        extra["wasm32_runs"] = wasm32.hostile(prop, count // 20)
        extra["builds"] = ["x86_64 with overflow checks", "x86_64 release", "x86_64 not inlined, no tail calls (long texts)", "wasm32 release"]
    elif prop == "C09":
        import wasm32
        batch(prop, binary, "checked", 0, count // 4, limit, tot)
        extra.update(wasm32.builds_agree(prop, count, binary, c.build_dsim("release")))
        import bigendian
        extra.update(bigendian.agree(prop, binary, tier))
        extra["builds"].append("s390x, big-endian, with overflow checks (Miri)")
    else:
        batch(prop, binary, build, 0, count, limit, tot)
    t = time.time() - t
    if prop == "C20":
        extra["stores_into_the_frame_buffer"] = tot.n["stores"]
    extra["determinism_selfcheck_runs"] = selfcheck(prop, binary, 150)
    if prop == "C01":
        import known
        extra["known_findings_replayed"] = known.collisions(binary)
    c.write_evidence(prop, tier, "exploration", coverage(prop, tot, t, extra), ASSUME)
    c.log("%s held on %d runs (%d distinct histories) in %.0f s" % (prop, tot.n["runs"], len(tot.sets[0]), t))
