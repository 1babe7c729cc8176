"""Shared plumbing: scratch space, toolchains, TLC, cargo, rustc."""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "1.87.0"
CORES = 8

T0 = time.time()


class ToolError(Exception):
    """The machinery could not decide (exit 2)."""


def say(msg):
    print(f"[{time.time() - T0:6.1f}s] {msg}", flush=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="fmv-", dir=os.environ.get("FMV_TMP", "/tmp"))
        if not os.environ.get("FMV_KEEP"):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def sub(name):
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    return d


class TimeOut(ToolError):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = os.environ.get("FMV_TARGET") or sub("target")
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, timeout=800, cwd=None, envd=None, inp=None, stderr=subprocess.PIPE):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=envd, input=inp, stdout=subprocess.PIPE, stderr=stderr,
                           timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise TimeOut(f"timed out after {timeout} s: {' '.join(map(str, cmd))[:200]}")
    return p


def tlc(module, cfg=None, envd=None, workers=CORES, timeout=800, extra=(), heap="8g"):
    """Runs TLC; returns its output. A property violation or an error of TLC is a ToolError unless the
    caller looks for it in the output."""
    meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
    cmd = ["java", "-Xss256m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}", "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-config", (cfg or module) + ".cfg", "-metadir", meta,
           *extra, module + ".tla"]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (envd or {}).items()})
    p = run(cmd, timeout=timeout, cwd=SPEC, envd=e)
    shutil.rmtree(meta, ignore_errors=True)
    return p.stdout + p.stderr


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def tlc_ok(out, what):
    if "Model checking completed. No error has been found." not in out:
        bad = [l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting", '"'))]
        raise ToolError(f"TLC failed on {what}:\n" + "\n".join(bad[:60]))
    return out


def tlc_lines(out, tag):
    """The payloads of PrintT("TAG payload") lines."""
    res = []
    pre = '"' + tag + " "
    for l in out.splitlines():
        if l.startswith(pre):
            res.append(json.loads(l)[len(tag) + 1:])
    return res


def cargo_rlibs(package="rt", features=None, extra=(), cwd=HARNESS, envd=None):
    """Builds a package of the harness workspace against /repo's working tree; returns crate -> artifact."""
    cmd = ["cargo", "build", "--offline", "--locked", "-p", package, "--message-format=json", *extra]
    p = run(cmd, cwd=cwd, envd=envd or env(), timeout=600)
    arts = {}
    diag = []
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m["reason"] == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    arts[m["target"]["name"].replace("-", "_")] = f
        elif m["reason"] == "compiler-message":
            diag.append(m["message"])
    return p.returncode == 0, arts, diag, p.stderr


class Libs:
    """The compiled crates and how to hand them to rustc."""

    def __init__(self, arts):
        self.arts = arts
        self.deps = os.path.join(os.path.dirname(arts["funcmap"]), "deps")
        if not os.path.isdir(self.deps):
            self.deps = os.path.dirname(arts["funcmap"])

    def flags(self, *names):
        f = ["-L", "dependency=" + self.deps]
        for n in names:
            crate, _, alias = n.partition("=")
            f += ["--extern", (alias or crate) + "=" + self.arts[crate]]
        return f


def rustc(src, libs, out=None, edition="2021", externs=("rt", "funcmap"), metadata=False, extra=(), cwd=None, toolchain=None,
          timeout=600):
    """Compiles one file; returns (ok, diagnostics)."""
    cmd = ["rustc", "--edition", edition, "--error-format=json", "-Awarnings", "-Ccodegen-units=4", "-Cdebuginfo=0",
           *libs.flags(*externs)]
    if metadata:
        cmd += ["--emit=metadata", "--out-dir", os.path.dirname(src)]
    elif out:
        cmd += ["-o", out]
    cmd += [*extra, src]
    e = env()
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    p = run(cmd, envd=e, cwd=cwd, timeout=timeout)
    diags = []
    for l in p.stderr.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("level") == "error" or (d.get("level", "").startswith("error")):
                diags.append(d)
        elif "panicked" in l or "internal compiler error" in l:
            diags.append({"message": l, "spans": [], "code": None, "rendered": l, "level": "error"})
    return p.returncode == 0, diags, p


def span_lines(d, fname=None):
    """All the line numbers (of the root file) a diagnostic points at, following macro expansions."""
    res = set()

    def go(sp):
        if fname is None or os.path.basename(sp["file_name"]) == os.path.basename(fname):
            res.add(sp["line_start"])
        if sp.get("expansion"):
            go(sp["expansion"]["span"])

    for sp in d.get("spans", []):
        go(sp)
    for c in d.get("children", []):
        for sp in c.get("spans", []):
            go(sp)
    return res


def primary_lines(d):
    res = []

    def go(sp):
        res.append(sp["line_start"])
        if sp.get("expansion"):
            go(sp["expansion"]["span"])

    for sp in d.get("spans", []):
        if sp.get("is_primary"):
            go(sp)
    return res


class Background:
    """A computation next to the others; result() raises what it raised."""

    def __init__(self, f, *a):
        import threading
        self.err = self.val = None

        def go():
            try:
                self.val = f(*a)
            except BaseException as e:
                self.err = e
        self.t = threading.Thread(target=go, daemon=True)
        self.t.start()

    def result(self):
        self.t.join()
        if self.err is not None:
            raise self.err
        return self.val


def model(module, what, envd=None, workers=4):
    """Exhaustive check of a model, in the background; result() is (states, transitions)"""
    def go():
        gen, distinct = tlc_stats(tlc_ok(tlc(module, envd=envd, workers=workers), module))
        say(f"TLC: {what}, in all {distinct} states")
        return distinct, gen
    return Background(go)


def repo_rev():
    p = run(["git", "-C", REPO, "rev-parse", "HEAD"])
    return p.stdout.strip()
