"""The harness compiled to wasm32 and run under node, against the native builds"""
import os, subprocess, time
import common as c
import dsim

RUN32 = os.path.join(c.VERIF, "wsim", "run32.js")


def lines(cmds, cpu_limit):
    """Outputs of several processes run at once; ('hung', i) when one stops making progress"""
    ps = []
    for cmd in cmds:
        o = open(os.path.join(c.BUILD, "lines-%d.txt" % len(ps)), "w+")
        ps.append((subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT), o))
    last = [(-1, 0.0)] * len(ps)
    try:
        while any(p.poll() is None for p, _ in ps):
            time.sleep(0.2)
            for i, (p, o) in enumerate(ps):
                size = os.fstat(o.fileno()).st_size
                if p.poll() is None:
                    if size != last[i][0]:
                        last[i] = (size, c.cpu_seconds(p.pid))
                    elif c.cpu_seconds(p.pid) - last[i][1] > cpu_limit:
                        return None, i
    finally:
        for p, _ in ps:
            if p.poll() is None:
                c.stop(p)
    out = []
    for p, o in ps:
        o.seek(0)
        out.append((p.returncode, o.read().splitlines()))
        o.close()
    return out, None


def digests32(module, prop, first, last):
    n = c.JOBS
    out, hung = lines([["node", RUN32, module, c.REF, prop, str(c.seed()), str(first + i), str(last), str(n)] for i in range(n)], 60)
    if out is None:
        return None, hung
    res = {}
    for rc, ls in out:
        if rc:
            raise c.HarnessError("run32: " + "\n".join(ls[-5:]))
        for l in ls:
            run, d, v = l.split()
            res[int(run)] = (d, v)
    return res, None


def native(binary, prop, first, last):
    n = c.JOBS
    out, hung = lines([[binary, "digest", c.REF, prop, str(c.seed()), str(first + i), str(last), str(n)] for i in range(n)], 60)
    if out is None:
        raise c.Violation(prop, c.save_replay("%s-hang.txt" % prop, "shard %d hangs, seed %d, runs %d to %d\n" % (hung, c.seed(), first, last)), "hang")
    res = {}
    for rc, ls in out:
        if rc:
            raise c.HarnessError("digest: " + "\n".join(ls[-5:]))
        for l in ls:
            run, _, d, v = l.split()
            res[int(run)] = (d, v)
    return res


def trace32(module, path):
    try:
        r = c.run_real(["node", RUN32, module, c.REF, "file", path])
    except c.Hung as e:
        return 1, [str(e)]
    if r.returncode not in (0, 1):
        raise c.HarnessError("run32 file: " + r.stdout[-800:])
    return r.returncode, r.stdout.splitlines()


def shrink_acts(text, fails):
    ls = text.splitlines()
    head = [l for l in ls if not l.startswith("@") and not l.startswith("#")]
    acts = [l for l in ls if l.startswith("@")]
    mk = lambda a: "\n".join(head + a) + "\n"
    acts = dsim.ddmin(acts, lambda a: fails(mk(a)), 60)
    return mk(acts)


def hostile(prop, count):
    """C05 in the 32-bit build: no trap, usable afterwards"""
    module = c.build_wasm("dsim")
    res, hung = digests32(module, prop, 1 << 30, (1 << 30) + count)
    binary = c.build_dsim("checked")
    if res is None:
        raise c.Violation(prop, c.save_replay("%s-wasm32-hang.txt" % prop, "wasm32 shard %d hangs, seed %d, runs from %d\n" % (hung, c.seed(), 1 << 30)), "hang in the 32-bit build")
    for run in sorted(res):
        if res[run][1] != "held":
            text = c.run([binary, "gen", c.REF, prop, str(c.seed()), str(run)]).stdout

            def fails(t):
                return trace32(module, c.save_replay("tmp.trace", t))[0] == 1
            if fails(text):
                text = shrink_acts(text, fails)
            path = c.save_replay("%s-wasm32-run%d.trace" % (prop, run), "# build wasm32\n# Violation of %s in the 32-bit build\n" % prop + text)
            raise c.Violation(prop, path, "32-bit build: %s: %s" % (res[run][1], " ".join(trace32(module, path)[1][-1:])))
    return len(res)


def first_difference(builds, path):
    """Acts up to which the builds agree on a trace; None when they agree completely"""
    out = []
    for kind, b in builds:
        if kind == "wasm32":
            ls = trace32(b, path)[1]
        elif kind == "big-endian":
            import bigendian
            ls = bigendian.states(path)
        else:
            try:
                ls = c.run_real([b, "digestfile", c.REF, path]).stdout.splitlines()
            except c.Hung:
                ls = []
        out.append([l for l in ls if len(l) == 16])
    if all(o == out[0] for o in out):
        return None
    n = 0
    while all(len(o) > n for o in out) and all(o[n] == out[0][n] for o in out):
        n += 1
    return n


def builds_agree(prop, count, checked, release):
    module = c.build_wasm("dsim")
    c.log("wasm32 build done")
    builds = [("checked", checked), ("release", release), ("wasm32", module)]
    t = time.time()
    a = native(checked, prop, 0, count)
    b = native(release, prop, 0, count)
    w, hung = digests32(module, prop, 0, count)
    if w is None:
        raise c.Violation(prop, c.save_replay("%s-wasm32-hang.txt" % prop, "wasm32 shard %d hangs, seed %d\n" % (hung, c.seed())), "hang in the 32-bit build")
    for run in sorted(a):
        if not (a[run] == b[run] == w[run]) or a[run][1] != "held":
            text = c.run([checked, "gen", c.REF, prop, str(c.seed()), str(run)]).stdout

            def fails(x):
                return first_difference(builds, c.save_replay("tmp.trace", x)) is not None
            if fails(text):
                text = shrink_acts(text, fails)
            path = c.save_replay("%s-run%d.trace" % (prop, run), "# build all\n# Builds disagree: checked %s, release %s, wasm32 %s\n" % (a[run], b[run], w[run]) + text)
            raise c.Violation(prop, path, "builds disagree from act %s on" % first_difference(builds, path))
    t = time.time() - t
    return dict(runs_compared_across_builds=len(a), executions_across_builds=3 * len(a), compare_seconds=round(t, 1),
                builds=["x86_64 with overflow checks", "x86_64 release", "wasm32 release (node)"])
