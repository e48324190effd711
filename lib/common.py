"""Shared by all checks: builds, processes, evidence, verdicts."""
import json, os, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.normpath(os.path.join(VERIF, "..", "repo"))
BUILD = os.path.join(VERIF, ".build")
REPLAY = os.path.join(VERIF, ".replay")
REF = os.path.join(VERIF, "ref", "fonts.bin")
T0 = time.time()
JOBS = max(2, min(8, os.cpu_count() or 2))


class HarnessError(Exception):
    """Neither held nor violated: the check itself failed (exit 2)"""


class Violation(Exception):
    def __init__(self, prop, replay, text):
        self.prop, self.replay, self.text = prop, replay, text


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def run(cmd, **kw):
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.STDOUT)
    kw.setdefault("text", True)
    return subprocess.run(cmd, **kw)


class Hung(Exception):
    pass


def run_real(cmd, cpu=30, **kw):
    """Like run, for processes that execute code under test: Hung when they use more CPU time than that"""
    kw.setdefault("stdout", subprocess.PIPE)
    kw.setdefault("stderr", subprocess.DEVNULL)
    p = subprocess.Popen(cmd, text=True, **kw)
    while True:
        try:
            out, _ = p.communicate(timeout=1)
            return subprocess.CompletedProcess(cmd, p.returncode, out, "")
        except subprocess.TimeoutExpired:
            if cpu_seconds(p.pid) > cpu:
                stop(p)
                raise Hung("no result after %d s of CPU time: %s" % (cpu, " ".join(cmd)))


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    tmp = "%s.%d" % (path, os.getpid())
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def cargo_env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return e


def build_dsim(profile):
    """Harness linked with the library from the working tree; returns the binary"""
    t, e = os.path.join(BUILD, "cargo"), cargo_env()
    if profile == "plain":
        t, e["RUSTC_WRAPPER"] = os.path.join(BUILD, "plain"), os.path.join(VERIF, "lib", "rustc-plain")
    os.makedirs(t, exist_ok=True)
    r = run(["cargo", "build", "--offline", "--profile", profile, "--bin", "dsim", "--target-dir", t] + (["--features", "plain"] if profile == "plain" else []),
            cwd=os.path.join(VERIF, "dsim"), env=e)
    if r.returncode:
        raise HarnessError("harness build failed:\n" + r.stdout[-4000:])
    return os.path.join(t, profile, "dsim")


def nightly():
    home = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
    names = sorted(n for n in os.listdir(os.path.join(home, "toolchains")) if n.startswith("nightly") and n.endswith("x86_64-unknown-linux-gnu"))
    if not names:
        raise HarnessError("no nightly toolchain")
    return names[-1]


def build_steps():
    """Harness, library and core compiled to count every basic block; returns the binary"""
    t = os.path.join(BUILD, "steps")
    os.makedirs(t, exist_ok=True)
    e = cargo_env()
    e["RUSTUP_TOOLCHAIN"] = nightly()
    e["RUSTFLAGS"] = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc"
    target = "x86_64-unknown-linux-gnu"
    r = run(["cargo", "build", "--offline", "--release", "-Zbuild-std=core,alloc,std,panic_unwind",
             "--target", target, "--target-dir", t], cwd=os.path.join(VERIF, "ssim"), env=e)
    if r.returncode:
        raise HarnessError("build with the clock failed:\n" + r.stdout[-4000:])
    return os.path.join(t, target, "release", "ssim")


def wasm_toolchain():
    home = os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup"))
    base = os.path.join(home, "toolchains")
    for n in sorted(os.listdir(base)):
        if os.path.isdir(os.path.join(base, n, "lib/rustlib/wasm32-unknown-unknown/lib")):
            return n
    raise HarnessError("no toolchain with the wasm32-unknown-unknown target")


def build_wasm(what):
    """what: 'dsim' (harness as a 32-bit module) or 'demo' (the repository's demo module)"""
    t = os.path.join(BUILD, "wasm-" + what)
    os.makedirs(t, exist_ok=True)
    e = cargo_env()
    e["RUSTUP_TOOLCHAIN"] = wasm_toolchain()
    cmd = ["cargo", "build", "--offline", "--release", "--target", "wasm32-unknown-unknown", "--target-dir", t]
    if what == "dsim":
        cwd = os.path.join(VERIF, "dsim")
        cmd += ["--lib"]
    else:
        # From its own directory: its .cargo/config.toml belongs to the build
        cwd = os.path.join(REPO, "wasm_demo")
    r = run(cmd, cwd=cwd, env=e)
    if r.returncode:
        raise HarnessError("wasm build of %s failed:\n%s" % (what, r.stdout[-4000:]))
    return os.path.join(t, "wasm32-unknown-unknown", "release", what + ".wasm")


def save_replay(name, text):
    os.makedirs(REPLAY, exist_ok=True)
    p = os.path.join(REPLAY, name)
    with open(p, "w") as f:
        f.write(text)
    return p


def cpu_seconds(pid):
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def stop(p):
    try:
        p.send_signal(signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def write_evidence(prop, tier, level, coverage, assumptions, violations=0):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed(), level=level, coverage=coverage,
                       assumptions=assumptions, wall_s=round(time.time() - T0, 2), violations=violations),
                  f, indent=1, ensure_ascii=False)
        f.write("\n")


def findings(prop):
    """Lines 'known: property=<id> <key...>' of the committed findings file"""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for l in f:
            if l.startswith("known: property=%s " % prop):
                out.append(l[len("known: property=%s " % prop):].strip())
    return out
