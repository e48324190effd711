"""C19: painters on simulated threads and in interrupt handlers; real library code.

The library and the harness (tsim/) are compiled with the compiler's thread
sanitizer instrumentation and linked with the simulated machine (tsim/sched.c)
in place of the sanitizer's runtime.
"""
import json, os, selectors, struct, subprocess, time
import common as c

RUNS = 120000  # quick; thorough: 20 times that
RULE = ("One run = one seed: 2 to 6 painters, each a thread or an interrupt handler with its own frame buffer, cursor and script of calls; "
        "the simulated machine switches between them inside calls, lets handlers in, delays stores and stops threads for ever, all from the seed. "
        "Each painter is then run alone, in a fresh process, and every completed call must have left the same. Non-trivial: two or more calls, and more "
        "switches than painters. Distinct: by digest of the scripts and of where every switch happened.")


def build(name="tsim"):
    """The harness for the working tree; name: tsim (C19) or watch (C20)"""
    t = os.path.join(c.BUILD, "tsim")
    os.makedirs(t, exist_ok=True)
    src = os.path.join(c.VERIF, "tsim", "sched.c")
    obj = os.path.join(t, "sched.o")
    r = c.run(["gcc", "-O2", "-fPIC", "-c", src, "-o", obj])
    if r.returncode:
        raise c.HarnessError("scheduler build failed:\n" + r.stdout[-4000:])
    tag = os.path.join(t, "sched.tag")
    e = c.cargo_env()
    e["RUSTUP_TOOLCHAIN"] = c.nightly()
    e["RUSTFLAGS"] = "-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Clink-arg=" + obj
    target = "x86_64-unknown-linux-gnu"
    bins = [os.path.join(t, target, "release", n) for n in ("tsim", "watch")]
    text = open(src).read()
    if not os.path.exists(tag) or open(tag).read() != text:
        for b in bins:
            if os.path.exists(b):
                os.unlink(b)  # link again
    r = c.run(["cargo", "build", "--offline", "--release", "--target", target, "--target-dir", t],
              cwd=os.path.join(c.VERIF, "tsim"), env=e)
    if r.returncode:
        raise c.HarnessError("thread harness build failed:\n" + r.stdout[-4000:])
    c.write_if_changed(tag, text)
    return bins[name == "watch"]


def result(out):
    for l in out.splitlines():
        if l.startswith("V "):
            return l[2:].split("\t")
    return None


def replay(binary, path):
    """('held'|'violated', class, message)"""
    r = c.run_real([binary, "replay", path], 120)
    if r.returncode == 0:
        return "held", "", ""
    v = result(r.stdout)
    if r.returncode == 1 and v:
        return "violated", v[1], v[3]
    raise c.HarnessError("replay of %s failed (%s)" % (path, r.returncode))


def confirm(binary, run):
    """Minimise, write the replay file, replay it; raises Violation"""
    t = c.run_real([binary, "gen", c.REF, str(c.seed()), str(run)], 120).stdout
    name = "C19-seed%d-run%d.trace" % (c.seed(), run)
    path = c.save_replay(name, t)
    k, cls, msg = replay(binary, path)
    if k == "held":
        raise c.HarnessError("run %d did not repeat: %s" % (run, path))
    small = t
    try:
        r = c.run_real([binary, "shrink", path, cls], 150)
        if r.returncode == 0 and r.stdout:
            small = r.stdout
    except c.Hung:
        pass
    tmp = c.save_replay("tmp-C19.trace", small)
    k2, cls2, msg2 = replay(binary, tmp)
    if k2 == "violated":
        c.save_replay(name, "# Violation of C19 (%s)\n# %s\n# Replay: ./replay <this file>   (sim tsim)\n%s" % (cls2, msg2, small))
        cls, msg = cls2, msg2
    raise c.Violation("C19", path, "%s: %s" % (cls, msg))


def replay_file(path):
    k, cls, msg = replay(build(), path)
    print(k, cls, msg)
    return 0 if k == "held" else 1


def batch(binary, first, count, limit, jobs):
    """Runs first..first+count in parallel; totals, digests, and the lowest violating run"""
    ps, sel = [], selectors.DefaultSelector()
    for i in range(jobs):
        out = os.path.join(c.BUILD, "out-C19-%d.bin" % i)
        p = subprocess.Popen([binary, "shard", c.REF, str(c.seed()), str(first + i), str(first + count), str(jobs), out, str(limit)],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        s = dict(p=p, out=out, buf=b"", i=i)
        ps.append(s)
        sel.register(p.stdout, selectors.EVENT_READ, s)
    left, bad = len(ps), None
    try:
        while left and bad is None:
            for k, _ in sel.select(timeout=5):
                s = k.data
                d = os.read(s["p"].stdout.fileno(), 1 << 16)
                if not d:
                    sel.unregister(s["p"].stdout)
                    left -= 1
                    if s["p"].wait() and bad is None:
                        raise c.HarnessError("shard %d failed (%d): %s" % (s["i"], s["p"].returncode, s["buf"][-300:]))
                    continue
                s["buf"] += d
                if b"\nV " in s["buf"] or s["buf"].startswith(b"V "):
                    v = result(s["buf"].decode("utf-8", "replace"))
                    if v and len(v) == 4:
                        bad = int(v[0])
        if bad is not None:
            confirm(binary, bad)
    finally:
        sel.close()
        for s in ps:
            if s["p"].poll() is None:
                c.stop(s["p"])
    tot, sets, samples, digests = {}, [set(), set()], [], []
    for s in ps:
        for l in s["buf"].decode("utf-8", "replace").splitlines():
            if l.startswith("S "):
                for k, v in json.loads(l[2:]).items():
                    tot[k] = tot.get(k, 0) + v
            elif l.startswith("T ") and len(samples) < 3:
                samples.append(l[2:].replace("\\n", "\n").replace("\\\\", "\\"))
            elif l.startswith("D "):
                digests.append(l)
        with open(s["out"], "rb") as f:
            for x in sets:
                n, = struct.unpack("<Q", f.read(8))
                x.update(struct.unpack("<%dQ" % n, f.read(8 * n)))
        os.unlink(s["out"])
    return tot, sets, samples, digests


def check(prop, tier):
    binary = build()
    c.log("built")
    count = RUNS * (20 if tier == "thorough" else 1)
    limit = 780 if tier == "thorough" else 240
    t = time.time()
    tot, sets, samples, _ = batch(binary, 0, count, limit, c.JOBS)
    t = time.time() - t
    # The same seeds twice: the same scripts, the same switches
    if batch(binary, 0, 200, 60, 2)[3] != batch(binary, 0, 200, 60, 2)[3]:
        raise c.HarnessError("simulator is not deterministic")
    runs = tot["runs"]
    cov = dict(
        evaluations=runs, distinct_nontrivial=len(sets[0]), rule=RULE, samples=samples,
        simulated_runs=runs, seeds=runs, runs_per_hour=int(runs / max(t, 1e-9) * 3600),
        simulated_seconds=0, simulated_time_note="the machine has no clock; its time is counted in points (function entries, memory accesses, atomic operations)",
        simulated_points=tot["points"], calls=tot["calls"], painters=tot["painters"],
        faults_injected={k: tot[k] for k in ("switches_inside_a_call", "interrupts", "threads_stopped_for_ever", "stores_delayed", "delayed_stores_made_visible")},
        runs_with_interrupt_handlers=tot["runs_with_handlers"], runs_with_delayed_stores_allowed=tot["runs_with_delayed_stores_allowed"],
        switches=tot["switches"], points_at_memory_shared_between_threads=tot["points_at_shared_memory"],
        switches_forced_for_fairness=tot["switches_forced_for_fairness"],
        distinct_interleavings=len(sets[1]), interleaving_measure="digest of (from, to, call, point in call) of every switch",
        determinism_selfcheck_runs=400,
        real_components=["blitstr library from the working tree, all five fonts, compiled with memory-access instrumentation"],
        stub_components=["threads, interrupt handlers and the processor's store buffers (sched.c)", "painters (seeded scripts)"])
    c.write_evidence(prop, tier, "exploration", cov,
                     ["Loads are not reordered; only stores are delayed, and only atomic ones.",
                      "Shared memory is recognised by lying in the program's writable static data; the library is no_std and has no heap.",
                      "Sampling: a clean batch is evidence, not proof."])
    c.log("C19 held on %d runs (%d distinct) in %.0f s" % (runs, len(sets[0]), t))
