"""C09 on a big-endian machine: the same histories in Miri's interpreter of s390x"""
import os, subprocess, time
import common as c

TARGET = "s390x-unknown-linux-gnu"
CRATE = os.path.join(c.VERIF, "dsim")
FLAGS = "-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check -Zmir-opt-level=3 -Zinline-mir"
BUDGET = dict(quick=8 * 200, thorough=8 * 900)
LIMIT = dict(quick=240, thorough=1500)


def env():
    e = c.cargo_env()
    e["RUSTUP_TOOLCHAIN"] = c.nightly()
    e["MIRI_SYSROOT"] = os.path.join(c.BUILD, "miri-sysroot")
    e["CARGO_TARGET_DIR"] = os.path.join(c.BUILD, "miri")
    e["MIRIFLAGS"] = FLAGS
    return e


def cmd(path):
    return ["cargo", "miri", "run", "--quiet", "--offline", "--bin", "dsim", "--target", TARGET, "--", "states", os.path.abspath(path)]


def build():
    """The standard library and the harness for the interpreter"""
    e = env()
    if not os.path.isdir(os.path.join(e["MIRI_SYSROOT"], "lib", "rustlib", TARGET, "lib")):
        r = c.run(["cargo", "miri", "setup", "--target", TARGET], cwd=CRATE, env=e)
        if r.returncode:
            raise c.HarnessError("cargo miri setup:\n" + r.stdout[-3000:])
    r = c.run(cmd("/dev/null"), cwd=CRATE, env=e)
    if r.returncode:
        raise c.HarnessError("big-endian build failed:\n" + r.stdout[-3000:])
    return TARGET


def split(text):
    """Output of `states`: states per trace, '# panic' for one that panics"""
    out, cur = [], []
    for l in text.splitlines():
        if l.startswith("#"):
            out.append(cur + (["panic"] if l.endswith("panic") else []))
            cur = []
        elif len(l) == 16:
            cur.append(l)
    return out


def states(path):
    try:
        r = c.run(cmd(path), cwd=CRATE, env=env(), stderr=subprocess.DEVNULL, timeout=300)
    except subprocess.TimeoutExpired:
        return ["hang"]
    return (split(r.stdout) or [[]])[0]


def cost(trace):
    n = 4
    for l in trace.splitlines():
        f = l.split("#")[0].split()
        if f and f[0].startswith("@"):
            n += {"demo": 60, "clear": 2, "clearraw": 2}.get(f[1], 1)
            if f[1] in ("paint", "paintraw"):
                n += (f[-1].count(".") + 1) / 10
    return n


def batch(prop, first, checked, tier):
    """Runs from first on whose cost fits, in all; ([(run, trace)], [what the interpreter did], [what the native build did])"""
    t0 = time.time()
    picked, spent, run = [], 0, first
    while spent < BUDGET[tier]:
        text = c.run([checked, "gen", c.REF, prop, str(c.seed()), str(run)]).stdout
        k = cost(text)
        if k < 90:
            spent += k
            picked.append((run, text, k))
        run += 1
    # the dearest first, each to the process with the least to do
    shards = [[0, []] for _ in range(c.JOBS)]
    for p in sorted(picked, key=lambda p: (-p[2], p[0])):
        s = min(shards, key=lambda s: s[0])
        s[0] += p[2]
        s[1].append(p)
    ps = []
    for i, (_, mine) in enumerate(shards):
        path = os.path.join(c.BUILD, "be-%d.trace" % i)
        with open(path, "w") as f:
            f.write("".join(p[1] for p in mine))
        o = open(os.path.join(c.BUILD, "be-%d.txt" % i), "w+")
        ps.append((subprocess.Popen(cmd(path), cwd=CRATE, env=env(), stdout=o, stderr=subprocess.DEVNULL), o, path, mine))
    try:
        while any(p[0].poll() is None for p in ps) and time.time() - t0 < LIMIT[tier]:
            time.sleep(0.3)
    finally:
        for p in ps:
            if p[0].poll() is None:
                c.stop(p[0])
    res = []
    for p, o, path, mine in ps:
        o.seek(0)
        got = split(o.read())
        o.close()
        want = split(c.run([checked, "states", os.path.abspath(path)], stderr=subprocess.DEVNULL).stdout)
        if p.returncode not in (0, -9, -15) and len(got) < len(mine):
            raise c.HarnessError("the interpreter ended with status %s" % p.returncode)
        for (run, text, _), g, w in zip(mine, got, want):
            res.append((run, text, g, w))
    return sorted(res, key=lambda r: r[0]), len(picked), time.time() - t0


def agree(prop, checked, tier):
    """Evidence, or a violation when the big-endian machine draws something else"""
    build()
    c.log("big-endian build done")
    import wasm32
    builds = [("checked", checked), ("big-endian", TARGET)]
    res, picked, t = batch(prop, 0, checked, tier)
    if len(res) < picked // 4:
        raise c.HarnessError("the interpreter got through %d of %d histories only" % (len(res), picked))
    for run, text, got, want in res:
        if got != want:
            at = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
            # nothing after the first difference is needed; then drop what is not, as far as a few minutes go
            ls = text.splitlines()
            acts = [i for i, l in enumerate(ls) if l.startswith("@")]
            text = "\n".join(ls[:acts[at] + 1] if at < len(acts) else ls) + "\n"
            until = time.time() + 150

            def fails(x):
                return time.time() < until and wasm32.first_difference(builds, c.save_replay("tmp.trace", x)) is not None
            if fails(text):
                text = wasm32.shrink_acts(text, fails)
            path = c.save_replay("%s-bigendian-run%d.trace" % (prop, run), "# build bigendian\n# A big-endian machine draws something else\n" + text)
            raise c.Violation(prop, path, "a big-endian machine draws something else from act %s on" % wasm32.first_difference(builds, path))
    return dict(big_endian=dict(machine=TARGET + " (Miri)", histories=len(res), of=picked, calls=sum(len(r[2]) for r in res), seconds=round(t, 1)))
