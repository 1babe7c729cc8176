"""C15: features (spec/Features.tla). Every configuration is built by cargo for dependents that request it; what is
available is asked of the compiler, what is linked shows in a program without std, and the mapping machine
(spec/FuncMap.tla) judges executions in the configurations without std."""
import json, os
from common import *
import e1, e1check, render

EXTRA = {"Tup1": "({},)", "Tup2": "({}, u8)", "Ref": "&'static {}", "RefMut": "&'static mut {}", "ConstPtr": "*const {}", "FnPtr": "fn({})",
         "Str": "String", "U8": "u8", "Unit": "()", "Slice": "Box<[{}]>"}
CONFS = [("none", set()), ("alloc", {"alloc"}), ("std", {"alloc", "std"})]


def tyname(c, args):
    if c == "Arr":
        return f"[{args[0]}; 3]"
    if c in EXTRA:
        return EXTRA[c].format(args[0])
    return render.LIB[c] + "<" + ", ".join(args) + ">"


def workspace(conf):
    """A workspace whose members request the features of the configuration; the first one is the runtime of the harness."""
    root = sub(f"e5/c{conf['id']}")
    names = []
    for i, r in enumerate(conf["reqs"]):
        n = "rt" if i == 0 else f"dep{i}"
        names.append(n)
        d = os.path.join(root, n)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        fs = ", ".join(f'"{f}"' for f in r["fs"])
        lib = f'[lib]\npath = "{HARNESS}/rt/src/lib.rs"\n' if i == 0 else ""
        open(os.path.join(d, "Cargo.toml"), "w").write(
            f'[package]\nname = "{n}"\nversion = "0.0.0"\nedition = "2021"\n{lib}[dependencies]\n'
            f'funcmap = {{ path = "/repo/funcmap", default-features = {"true" if r["d"] else "false"}, features = [{fs}] }}\n')
        if i:
            open(os.path.join(d, "src", "lib.rs"), "w").write("pub use funcmap;\n")
    open(os.path.join(root, "Cargo.toml"), "w").write(
        "[workspace]\nmembers = [" + ", ".join(f'"{n}"' for n in names + ["top"]) + ']\nresolver = "2"\n'
        "[profile.dev]\ndebug = false\nopt-level = 0\nincremental = false\n")
    d = os.path.join(root, "top")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write('[package]\nname = "top"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\n'
                                                    + "".join(f'{n} = {{ path = "../{n}" }}\n' for n in names))
    open(os.path.join(d, "src", "lib.rs"), "w").write("".join(f"pub use {n};\n" for n in names))
    lock = open(os.path.join(HARNESS, "Cargo.lock")).read()
    open(os.path.join(root, "Cargo.lock"), "w").write(lock)
    return root


def build(conf):
    """(libs or None, what went wrong)"""
    root = workspace(conf)
    cmd = ["cargo", "build", "--offline", "-p", "top", "--message-format=json"]
    p = run(cmd, cwd=root, envd=env(), timeout=400)
    arts, errs = {}, []
    for l in p.stdout.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m["reason"] == "compiler-artifact":
            for f in m["filenames"]:
                if f.endswith((".rlib", ".so")):
                    arts[m["target"]["name"].replace("-", "_")] = f
        elif m["reason"] == "compiler-message" and m["message"]["level"] == "error":
            errs.append((m["target"]["name"], m["message"]["rendered"]))
    if p.returncode == 0:
        return Libs(keep(arts, root)), None
    if any(t in ("funcmap", "funcmap_derive") for t, _ in errs):
        return None, "".join(m for t, m in errs)[:1500]
    raise ToolError("cannot build the dependents:\n" + p.stderr[-2500:])


def keep(arts, root):
    """cargo names the copies of a crate by a hash, which may be the same for different workspaces: copy what is needed"""
    import shutil
    d = os.path.join(root, "libs", "deps")
    os.makedirs(d, exist_ok=True)
    res = {}
    for k, f in arts.items():
        if k in ("top", "funcmap", "rt", "funcmap_derive"):
            # the file in deps/ carries the hash that others refer to
            deps = os.path.join(os.path.dirname(f), "deps") if os.path.basename(os.path.dirname(f)) != "deps" else os.path.dirname(f)
            base = os.path.basename(f)
            cands = [base] if os.path.basename(os.path.dirname(f)) == "deps" else [x for x in os.listdir(deps) if x.startswith(f"lib{k}-") and x.endswith(base[base.rindex("."):])
                     and os.path.samefile(os.path.join(deps, x), f)]
            if not cands:
                raise ToolError(f"cannot find the artifact {f} in {deps}")
            shutil.copy(os.path.join(deps, cands[0]), os.path.join(d, cands[0]))
            res[k] = os.path.join(d, cands[0])
    return res


def probe(conf, libs):
    """availability of every type in both traits: {(type, arg, trait): bool}"""
    o = ["#![allow(warnings)]", "use funcmap::{FuncMap, TryFuncMap, TypeParam};",
         "#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct A; #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct B;",
         "pub trait No { const YES: bool = false; } impl<T: ?Sized> No for T {}",
         "fn main() {"]
    asks = []
    for t in conf["types"]:
        for arg in range(t["args"]):
            # the other argument is u8
            mk = lambda x: tyname(t["c"], [x if i == arg else "u8" for i in range(t["args"])])
            for tr in ("FuncMap", "TryFuncMap"):
                k = len(asks)
                asks.append((t["c"], arg, tr, t["yes"]))
                out = "" if t["c"] in EXTRA else f", Output = {mk('B')}"
                o.append(f"{{ struct Q<T: ?Sized>(std::marker::PhantomData<T>); impl<T: ?Sized + {tr}<A, B, TypeParam<{arg}>{out}>> Q<T> {{ const YES: bool = true; }} "
                         f"println!(\"ANS {k} {{}}\", <Q<{mk('A')}>>::YES); }}")
    o.append("}")
    f = os.path.join(sub("e5"), f"probe{conf['id']}.rs")
    open(f, "w").write("\n".join(o) + "\n")
    ok, diags, p = rustc(f, libs, out=f[:-3], externs=("funcmap",))
    if not ok:
        raise ToolError("the probe does not compile: " + (diags[0].get("rendered", "") if diags else p.stderr)[:1500])
    q = run([f[:-3]], timeout=60)
    got = {}
    for l in q.stdout.splitlines():
        if l.startswith("ANS "):
            _, k, v = l.split()
            got[int(k)] = v == "true"
    return [(asks[k], got[k]) for k in range(len(asks))]


NOSTD = """#![no_std]
#![allow(warnings)]
@EXT@
use core::panic::PanicInfo;
#[panic_handler] fn panic(_: &PanicInfo) -> ! { loop {} }
use funcmap::{FuncMap, TryFuncMap};
#[derive(FuncMap, TryFuncMap)] pub struct S<T, const N: usize>(pub T, pub Option<[T; N]>, pub core::cell::Cell<T>, pub core::ops::Range<T>);
#[derive(FuncMap, TryFuncMap)] pub enum E<T, U> { A { x: T, y: (u8, core::result::Result<T, U>) }, B(core::task::Poll<U>), C }
@ITEMS@
#[no_mangle] pub extern "C" fn go(x: u8) -> u16 {
    let s = S(x, Some([x, x]), core::cell::Cell::new(x), x..x).func_map(|v| v as u16 + 1);
    let t: Result<S<u16, 2>, u8> = s.try_func_map(|v| if v > 300 { Err(3u8) } else { Ok(v) });
    let e = E::<u8, u8>::A { x, y: (1, Ok(x)) }.func_map_over::<funcmap::TypeParam<0>, _>(|v| v as u16);
    match (t, e) { (Ok(s), E::A { x, .. }) => s.0 + x, _ => 0 }
}
"""
ALLOC = """extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
struct Al; unsafe impl GlobalAlloc for Al { unsafe fn alloc(&self, l: Layout) -> *mut u8 { core::ptr::null_mut() } unsafe fn dealloc(&self, p: *mut u8, l: Layout) {} }
#[global_allocator] static AL: Al = Al;"""
ALLOC_ITEMS = """#[derive(FuncMap, TryFuncMap)] pub struct L<T>(pub alloc::vec::Vec<T>, pub alloc::boxed::Box<T>, pub alloc::collections::VecDeque<T>);
#[derive(FuncMap, TryFuncMap)] pub struct M<T>(pub alloc::collections::BTreeMap<u8, T>);"""


def nostd(conf, libs):
    """a program without std (and without an allocator, if nothing needs one)"""
    al = "alloc" in conf["linked"]
    src = NOSTD.replace("@EXT@", ALLOC if al else "").replace("@ITEMS@", ALLOC_ITEMS if al else "")
    f = os.path.join(sub("e5"), f"nostd{conf['id']}.rs")
    open(f, "w").write(src)
    ok, diags, p = rustc(f, libs, out=os.path.join(sub("e5"), f"libnostd{conf['id']}.a"), externs=("funcmap",),
                         extra=("--crate-type=staticlib", "-Cpanic=abort"))
    return None if ok else (diags[0].get("rendered") or diags[0]["message"] if diags else p.stderr)[:1500]


def confs(seed, ntwo):
    out = tlc_ok(tlc("GenFeatures", envd=dict(GENSEED=seed, NTWO=ntwo), workers=1), "GenFeatures")
    return [json.loads(x) for x in tlc_lines(out, "CONF")], tlc_stats(out)


def show(conf):
    return " and ".join(f"{'default' if r['d'] else 'no default'} features{' with ' + ', '.join(r['fs']) if r['fs'] else ''}" for r in conf["reqs"])


def check(rep, only=None):
    rep.assumptions = ["the std-less program is compiled for the host, with panic=abort"]
    q = rep.tier == "quick"
    design = model("MCFeatures", "features add up to exactly what is asked for", workers=2)
    cs, st = confs(rep.seed, 3 if q else 24)
    rep.add(states=st[1], transitions=st[0])
    chosen = {}
    nask = 0
    for c in cs:
        libs, err = build(c)
        rp = {"engine": "e5check", "conf": c["id"], "seed": rep.seed}
        if err:
            rep.violation(f"e5 build {show(c)}", f"the crate does not build with {show(c)}: {err}", rp)
            continue
        for (ty, arg, tr, want), got in probe(c, libs):
            nask += 1
            if want != got:
                rep.violation(f"e5 {ty} {arg} {tr} {show(c)}", f"with {show(c)}, {tr} of {ty} over argument {arg} is {'available' if got else 'missing'}, but should {'' if want else 'not '}be", rp)
        if "std" not in c["linked"]:
            err = nostd(c, libs)
            if err:
                rep.violation(f"e5 nostd {show(c)}", f"with {show(c)}, a program without std does not build: {err}", rp)
        chosen.setdefault(frozenset(c["linked"]), (c, libs))
    rep.add(configurations=len(cs), availability_answers=nask, std_less_programs=sum("std" not in c["linked"] for c in cs),
            samples=[{"requests": show(cs[1]), "enabled": cs[1]["on"], "linked": cs[1]["linked"]}])
    say(f"{len(cs)} configurations, {nask} availability questions")
    for linked, (c, libs) in sorted(chosen.items(), key=lambda x: len(x[0])):
        yes = {t["c"] for t in c["types"] if t["yes"]}
        if "std" in linked and q:
            continue

        def ok(ty):
            return (ty["c"] not in render.LIB or ty["c"] in yes) and all(map(ok, ty["a"]))
        rounds = 1 if q else 4
        for k in range(rounds):
            behave(rep, libs, ok, 30, 2, rep.seed + 1000 * k + len(linked), show(c), c["id"])
    s = design.result()
    rep.add(states=s[0], transitions=s[1])


def behave(rep, libs, ok, ndefs, nvals, seed, name, cid):
    r = e1.pipeline(ndefs, nvals, seed, 9, {"OK", "FAIL", "LIB"}, libs=libs, label=f"e5-{seed}", keep=ok)
    n = 0
    for i, rec in sorted(r["records"].items()):
        v = e1check.violated(r["bad"].get(i, []), i in r["acc"], r["cases"][i], rec, r["vals"][r["cases"][i]["val"]])
        if v:
            n += 1
            if n <= 3:
                rep.violation(f"e5 behaviour {name} {r['vals'][r['cases'][i]['val']]['ty']['c']} {sorted(v.items())}",
                              f"with {name}, a mapping is wrong: {v} in case {json.dumps(r['cases'][i])[:500]}", {"engine": "e5check", "conf": cid, "seed": rep.seed})
    lost = len(r["cases"]) - len(r["records"])
    if lost:
        what = str(next(iter(r["dropped"].values())))[:1200]
        if lost * 2 > len(r["cases"]):
            raise ToolError(f"with {name}, most cases do not compile: {what}")
    rep.add(traces_validated_against_impl=r["stats"]["traces"], states=r["stats"]["states"][1], transitions=r["stats"]["states"][0], cases_not_compiled=lost)
    say(f"{name}: {len(r['records'])} mappings, {n} wrong, {lost} not compiled")


def replay(r):
    from driver import Report
    rep = Report(r["property"], "quick", r["seed"])
    rep.findings = []
    check(rep)
    bad = [k for k, *_ in rep.violations if k == r["key"]] or rep.violations
    if bad:
        print(f"VIOLATION property={r['property']} replay={r['key'][:80]}")
        return 1
    return 0
