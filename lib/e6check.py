"""C16: the same declarations expanded again and again; the history is explained by spec/Determinism.tla."""
import hashlib, json, os, re
from common import *
import e1, e2, e3


def inputs(n2, n3, seed):
    """declarations as source text (one module body each)"""
    cases, st = e2.generate("random", "c16", n2, seed)
    res = []
    for k, c in enumerate(cases):
        it = e2.Item(dict(c, id=k))
        res.append("use super::pre::*;\n" + e2.source(it))
    w, _, st3 = e3.generate("bnd", n3, 0, seed)
    world = "pub mod world {\n" + "\n".join(l for l in w.prelude().splitlines() if not l.startswith("#!")) + "\n"
    for k in range(1, len(w.defs) + 1):
        world += w.definition(k, derive=False)
        res.append("use funcmap::{FuncMap, TryFuncMap}; use super::world::*;\n" + w.definition(k))
    return res, world + "}\n", (st[0] + st3[0], st[1] + st3[1])


def run_compiler(ins, world, r, n, libs):
    """expands the sequence of run r; returns [(input, output text)]"""
    a = r["around"]
    d = os.path.join(sub("det"), f"run{n}", *["sub"] * a["dir"])
    os.makedirs(d, exist_ok=True)
    text = e2.PRELUDE + world + "// " + "x" * a["pad"] + "\n" * a["pad"] + "\n"
    starts = []
    for k, x in enumerate(r["seq"]):
        text += f"mod o{k:06} {{ "
        starts.append(len(text))
        text += ins[x - 1] + "}\n"
    text += "fn main() {}\n"
    open(os.path.join(d, "x.rs"), "w").write(text)
    ev = env(RUSTC_BOOTSTRAP=1)
    for k in range(a["env"]):
        ev[f"FMV_{k}"] = "x" * 100 * k
    if a["env"] == 2:
        ev.update(CARGO_PKG_NAME="other", CARGO_MANIFEST_DIR="/nowhere", CARGO_CRATE_NAME="other", OUT_DIR="/nowhere", HOME="/nonexistent",
                  RUSTUP_HOME=os.environ.get("RUSTUP_HOME", os.path.expanduser("~/.rustup")), CARGO_HOME=os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo")))
    p = run(["rustc", "--edition", a["edition"], "-Zunpretty=expanded", "--error-format=json", *libs.flags(*e2.EXTERNS), "x.rs"], cwd=d, envd=ev)
    if "internal compiler error" in p.stderr:
        raise ToolError("the compiler crashed: " + p.stderr[-500:])
    code, cur = {}, None
    for l in p.stdout.splitlines():
        m = re.match(r"mod o(\d{6}) \{", l)
        if m:
            cur = int(m.group(1))
            code[cur] = []
        if cur is not None:
            code[cur].append(l if not m else "")
        if l == "}":
            cur = None
    if len(code) != len(r["seq"]):
        raise ToolError(f"{len(code)} of {len(r['seq'])} expansions found: " + p.stderr[:1000])
    diags = {k: [] for k in code}
    import bisect
    for l in p.stderr.splitlines():
        if not l.startswith("{"):
            continue
        q = json.loads(l)
        if q.get("code"):
            continue

        def rel(sp):
            while sp.get("expansion") and os.path.basename(sp["file_name"]) != "x.rs":
                sp = sp["expansion"]["span"]
            return sp["byte_start"], sp["byte_end"]
        prim = [rel(s) for s in q["spans"] if s["is_primary"]]
        if not prim:
            continue
        k = bisect.bisect_right(starts, prim[0][0]) - 1
        if k < 0:
            continue
        base = starts[k]
        diags[k].append([q["level"], q["message"], [[s - base, e - base] for s, e in map(rel, q["spans"])], [s["label"] for s in q["spans"]],
                         [c["message"] for c in q["children"]]])
    return [(x, "\n".join(code[k]) + "\n// diagnostics\n" + "\n".join(json.dumps(d) for d in diags[k])) for k, x in enumerate(r["seq"])]


def one(rep, libs, n2, n3, runs, reps, seed):
    ins, world, st = inputs(n2, n3, seed)
    out = tlc_ok(tlc("GenDeterminism", envd=dict(NIN=len(ins), RUNS=runs, REPS=reps, GENSEED=seed), workers=1), "GenDeterminism")
    say("scheduled")
    sched = [json.loads(x) for x in tlc_lines(out, "RUN")]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        got = list(ex.map(lambda nr: run_compiler(ins, world, nr[1], nr[0], libs), enumerate(sched)))
    say("compiled")
    hist = [(x, o, n) for n, g in enumerate(got) for x, o in g]
    f = os.path.join(sub("det"), f"hist{seed}.json")
    with open(f, "w") as h:
        for x, o, _ in hist:
            h.write(json.dumps({"in": x, "out": hashlib.sha256(o.encode()).hexdigest()[:20]}) + "\n")
    out2 = tlc_ok(tlc("TraceDeterminism", envd=dict(HIST=f), workers=1), "TraceDeterminism")
    s1, s2 = tlc_stats(out), tlc_stats(out2)
    bad = [json.loads(x) for x in tlc_lines(out2, "BAD")]
    seen = set()
    for b in bad:
        if b["in"] in seen:
            continue
        seen.add(b["in"])
        first = next(o for x, o, _ in hist if x == b["in"])
        other = hist[b["event"] - 1]
        diff = next(((p, q) for p, q in zip(first.splitlines() + [""], other[1].splitlines() + [""]) if p != q), ("", ""))
        src = ins[b["in"] - 1]
        rep.violation(f"e6 {src}", f"two expansions of the same declaration differ, in run {other[2]}: `{diff[0].strip()[:300]}` and `{diff[1].strip()[:300]}`\n  for: {src[:900]}",
                      {"engine": "e6check", "params": dict(n2=n2, n3=n3, runs=runs, reps=reps, seed=seed), "in": b["in"], "source": src, "first": first, "other": other[1]})
    nerr = sum(1 for x, o, _ in hist if not o.endswith("// diagnostics\n"))
    rep.add(inputs=len(ins), expansions=len(hist), expansions_with_diagnostics=nerr, compiler_runs=len(sched),
            states=st[1] + s1[1] + s2[1], transitions=st[0] + s1[0] + s2[0], traces_validated_against_impl=len(sched),
            samples=[{"declaration": ins[len(ins) // 2], "output": hist[next(i for i, h in enumerate(hist) if h[0] == len(ins) // 2 + 1)][1][-1500:]}])
    say(f"seed {seed}: {len(ins)} declarations, {len(hist)} expansions in {len(sched)} runs, {len(seen)} differ")
    return seen


def check(rep):
    rep.assumptions = ["outputs are compared as pretty-printed code: identifier hygiene and spans of generated code are not visible, those of diagnostics are"]
    design = model("MCDeterminism", "a history is explained exactly if there is a function from inputs to outputs", workers=2)
    libs = e2check_prepare()
    q = rep.tier == "quick"
    for k in range(4 if q else 20):
        one(rep, libs, 260 if q else 600, 40, 4 if q else 8, 4 if q else 6, rep.seed + 100 * k)
        if rep.violations:
            break
    st = design.result()
    rep.add(states=st[0], transitions=st[1])


def e2check_prepare():
    import e2check
    return e2check.prepare()


def replay(r):
    from driver import Report
    rep = Report(r["property"], "quick", 1)
    one(rep, e2check_prepare(), **r["params"])
    if any(k == r["key"] for k, *_ in rep.violations) or rep.violations:
        print(f"VIOLATION property={r['property']} replay={r['key'][:60]}")
        return 1
    return 0
