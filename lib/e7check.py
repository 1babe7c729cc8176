"""C17: the lints the compiler reports with and without the derives (spec/Lints.tla)."""
import json, os
from common import *
import e1

# name of the occasion: pieces of a declaration (k: number of the declaration)
#   lt, ps: parameters; wh: where clause; f: field types; nf: named fields; v: variants; name: start of the name
PIECES = {
    "camelp": dict(ps=["u{k}"], f=["u{k}"], inner="ps"),
    "camelv": dict(v=["lower(T)"]),
    "camelname": dict(name="lower_d"),
    "upper": dict(ps=["const n: usize"], f=["[T; n]"], inner="ps"),
    "upper2": dict(ps=["const nn: usize"], f=["Kc<{ nn }>"], inner="ps"),
    "snakelt": dict(lt=["'Abc"], f=["&'Abc u8"], inner="lt"),
    "snakef": dict(nf=["FooBar: T"]),
    "depty": dict(f=["Old<T>"]),
    "deptr": dict(wh=["T: OldTr"]),
    "depk": dict(f=["[T; OLDK]"]),
    "depk2": dict(f=["Kt<T, { OLDK }>"]),
    "depmod": dict(f=["oldm::In<T>"]),
    "dropb": dict(wh=["T: Drop"]),
    "dropb2": dict(ps=["U{k}: Drop"], f=["U{k}"]),
    "dynd": dict(wh=["for<'d> &'d dyn Drop: Plain"]),
    "qualf": dict(f=["core::option::Option<T>"]),
    "qualb": dict(wh=["T: core::marker::Copy"]),
    "paren": dict(f=["(T)"]),
    "paren2": dict(f=["Vec<(T)>"]),
    "parenlen": dict(f=["[T; (2)]"]),
    "brace": dict(f=["Kt<T, {3}>"]),
    "brace0": dict(f=["Kc<{3}>"]),
    "unlt": dict(wh=["for<'x> u8: Plain"]),
    "redlt": dict(lt=["'a: 'static"], f=["&'a u8"], inner="lt"),
    "outl": dict(lt=["'b"], ps=["W{k}: 'b"], f=["&'b W{k}"], params=True, inner="ps"),
    "bare": dict(f=["Box<Plain>"]),
    "bare2": dict(f=["Kv<T, Box<Plain>>"]),
    "abs": dict(f=["::here::Pl<T>"]),
    "hid": dict(f=["fn(Lt)"]),
    "hid2": dict(f=["Kv<T, fn(Lt)>"]),
    "privb": dict(wh=["T: PrivTr"]),
    "lenvar": dict(f=["[T; { let unused = 1; 2 }]"]),
    "lenvar2": dict(f=["Kt<T, { let unused = 1; 2 }>"]),
    "lenmut": dict(f=["Kt<T, { let mut x = 1; x + 1 }>"]),
    "lencast": dict(f=["[T; 2usize as usize]"]),
    "lencast2": dict(f=["Kt<T, { 2usize as usize }>"]),
    "lenunsafe": dict(f=["Kt<T, { let x = unsafe { 2 }; x }>"]),
    "lensnake": dict(f=["[T; { let Xx = 2; Xx }]"]),
    "lensnake2": dict(f=["Kt<T, { let Xx = 2; Xx }>"]),
    "lenover": dict(f=["[T; 300u8 as usize]"]),
    "lenover2": dict(f=["Kt<T, { 300u8 as usize }>"]),
    "missabi": dict(f=["Kv<T, extern fn(u8)>"]),
    "cty": dict(f=["Kv<T, extern \"C\" fn(String)>"]),
}
PRELUDE = """#![allow(dead_code, unused_imports)]
use funcmap::{FuncMap, TryFuncMap};
pub trait Plain {} impl<T: ?Sized> Plain for T {}
#[deprecated] pub trait OldTr {}
#[deprecated] #[derive(FuncMap, TryFuncMap)] pub struct Old<T>(pub T);
#[deprecated] pub const OLDK: usize = 2;
#[deprecated] pub mod oldm { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct In<T>(pub T); }
trait PrivTr {}
pub struct Lt<'a>(pub &'a u8);
#[derive(FuncMap, TryFuncMap)] pub struct Kv<T, U>(pub T, pub U);
#[derive(FuncMap, TryFuncMap)] pub struct Kt<T, const N: usize>(pub [T; N]);
pub struct Kc<const N: usize>;
pub mod here { #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct Pl<T>(pub T); }
"""
NOOP = """extern crate proc_macro;
use proc_macro::TokenStream;
#[proc_macro_derive(FuncMap, attributes(funcmap))] pub fn a(_: TokenStream) -> TokenStream { TokenStream::new() }
#[proc_macro_derive(TryFuncMap, attributes(funcmap))] pub fn b(_: TokenStream) -> TokenStream { TokenStream::new() }
"""


def attrs(settings):
    return "".join(f"#[{s['level']}({s['lint']})] " for s in settings)


def source(k, d):
    """one line"""
    lt, ps, wh, f, nf, v, name, sel = [], ["T"], [], ["T"], [], [], "D", True
    inner = attrs(d["inner"])
    for o in sorted(d["occ"]):
        p = {a: [x.replace("{k}", str(k) + o[-1]) for x in b] if isinstance(b, list) else b for a, b in PIECES[o].items()}
        here = p.get("inner", "f")
        lt += [(inner if here == "lt" else "") + x for x in p.get("lt", [])]
        ps += [(inner if here == "ps" else "") + x for x in p.get("ps", [])]
        wh += p.get("wh", [])
        f += [(inner if here == "f" else "", x) for x in p.get("f", [])]
        nf += [inner + x for x in p.get("nf", [])]
        v += [inner + x for x in p.get("v", [])]
        name = p.get("name", name)
        sel = sel and not p.get("params")
    f = [x if isinstance(x, tuple) else ("", x) for x in f]
    form = d["form"]
    der = "#[derive(FuncMap, TryFuncMap)] "
    opt = "" if sel else "#[funcmap(params(T))] "
    item = attrs(d["item"])
    head = [item + opt + der, der + item + opt, opt + der + item][form % 3]
    gen = ", ".join(lt + ps)
    where = " where " + ", ".join(wh) if wh else ""
    tuple_fs = ", ".join(a + x for a, x in f)
    tuple_ps = ", ".join(f"{a}pub {x}" for a, x in f)
    named = ", ".join([f"{a}f{i}: {x}" for i, (a, x) in enumerate(f)] + nf)
    if v or form % 5 == 0:
        body = f"pub enum {name}{k}<{gen}>{where} {{ First {{ {named} }}, {', '.join(v)} }}" if nf or form % 2 else \
               f"pub enum {name}{k}<{gen}>{where} {{ First({tuple_fs}), {', '.join(v)} }}"
    elif nf or form % 2:
        body = f"pub struct {name}{k}<{gen}>{where} {{ {named} }}"
    else:
        body = f"pub struct {name}{k}<{gen}>({tuple_ps}){where};"
    return f"{attrs(d['mod'])}pub mod m{k} {{ use super::*; {head}{body} }}"


def generate(n, seed, edition, cap):
    out = tlc_ok(tlc("GenLints", envd=dict(N=n, GENSEED=seed, EDITION=edition, CAP=int(cap)), workers=1), "GenLints")
    return json.loads(tlc_lines(out, "WORLD")[0]), [json.loads(x) for x in tlc_lines(out, "LINT")], tlc_stats(out)


def other_lints(known):
    """all the other lints of the compiler, to be reported too"""
    p = run(["rustc", "-W", "help"], envd=env())
    res, on = [], False
    for l in p.stdout.splitlines():
        if l.startswith("Lint checks provided"):
            on = True
        elif l.startswith("Lint groups"):
            break
        w = l.split()
        if on and len(w) > 2 and w[1] in ("allow", "warn"):
            n = w[0].replace("-", "_")
            if n not in known and n not in ("dead_code", "unused_imports", "unused_crate_dependencies", "unstable_features"):
                res.append(n)
    return res


def reports(src, externs_of, flags, edition, lines):
    """declaration -> set of (lint, severity, message); declarations that do not compile"""
    p = run(["rustc", "--edition", edition, "--crate-type", "lib", "--emit=metadata", "--out-dir", os.path.dirname(src), "--error-format=json",
             *externs_of, *flags, src], envd=env())
    if "internal compiler error" in p.stderr:
        raise ToolError("the compiler crashed: " + p.stderr[-500:])
    got, broken, text = {k: set() for k in lines.values()}, {}, {}
    for l in p.stderr.splitlines():
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        code = (d.get("code") or {}).get("code", "")
        for s in d["spans"]:
            if not s["is_primary"]:
                continue
            while s.get("expansion") and os.path.basename(s["file_name"]) != os.path.basename(src):
                s = s["expansion"]["span"]
            k = lines.get(s["line_start"])
            if k is None:
                if d["level"] == "error":
                    raise ToolError("an error outside of the declarations: " + d["rendered"][:800])
                continue
            r = (code, d["level"], d["message"])
            if d["level"] == "error" and (not code or code[0] == "E"):
                broken[k] = d["message"]
            else:
                got[k].add(r)
                text[k, r] = d["rendered"]
    return got, broken, text


def one(rep, libs, noop, others, n, seed, edition, cap):
    world, decls, st = generate(n, seed, edition, cap)
    known = {w["lint"] for w in world}
    flags = ["--" + s["level"] + "=" + s["lint"] for s in world] + ["--warn=" + x for x in others] + (["--cap-lints=warn"] if cap else [])
    pre = PRELUDE.replace("\n", " extern crate core; extern crate funcmap; " if edition == "2015" else " ", 1).replace("\n", " ")
    real = libs.flags("funcmap")
    gone = set()
    for phase in ("alone", "derived"):
        while True:
            lines, rows = {}, [pre]
            for k, d in enumerate(decls):
                if k in gone:
                    continue
                rows.append(source(k, d))
                lines[len(rows)] = k
            f = os.path.join(sub("lints"), f"{phase}{edition}_{seed}{cap:d}.rs")
            open(f, "w").write("\n".join(rows) + "\n")
            got, broken, text = reports(f, ["--extern", "funcmap=" + noop] if phase == "alone" else real, flags, edition, lines)
            if not broken:
                break
            if phase == "derived":
                for k, m in broken.items():
                    rep.violation(f"e7 does not compile {sorted(decls[k]['occ'])} {decls[k]['item']} {decls[k]['inner']}", f"edition {edition}: does not compile with the derives: {m}\n  for: {source(k, decls[k])}",
                                  {"engine": "e7check", "params": dict(n=n, seed=seed, edition=edition, cap=cap), "decl": k, "source": source(k, decls[k])})
            if phase == "alone" and os.environ.get("FMV_DEBUG"):
                print("control", [(m, source(k, decls[k])) for k, m in broken.items()])
            gone |= set(broken)
        if phase == "alone":
            alone = got
    if len(gone) > n / 3:
        raise ToolError(f"{len(gone)} of {n} declarations do not compile")
    wrong = 0
    for k, d in enumerate(decls):
        if k in gone:
            continue
        want = {(x["lint"], x["severity"]) for x in d["reported"]}
        seen = {x[:2] for x in alone[k] if x[0] in SPECIFIED}
        if seen != want:
            wrong += 1
            if os.environ.get("FMV_DEBUG"):
                print("control", sorted(seen ^ want), source(k, d))
            continue
        for r in sorted(got[k] - alone[k]):
            lint, sev = r[:2]
            rep.violation(f"e7 {lint} {sorted(d['occ'])} {d['item']} {d['inner']}", f"edition {edition}: with the derives the compiler reports {lint} ({sev}), which it does not without them\n  for: {source(k, d)}\n"
                          + text[k, r][:800], {"engine": "e7check", "params": dict(n=n, seed=seed, edition=edition, cap=cap), "decl": k, "source": source(k, d)})
    if wrong > n / 10:
        raise ToolError(f"for {wrong} of {n} declarations the compiler reports something else without the derives than specified")
    rep.add(declarations=n - len(gone), reports_predicted=sum(len(d["reported"]) for d in decls), left_out=len(gone) + wrong, lints_on=len(others) + len(known),
            states=st[1], transitions=st[0], traces_validated_against_impl=n - len(gone) - wrong,
            samples=[{"declaration": source(n // 2, decls[n // 2]), "predicted": decls[n // 2]["reported"]}])
    say(f"edition {edition} seed {seed}{", capped" if cap else ""}: {n} declarations, {len(gone)} do not compile, {wrong} reported differently without the derives")


SPECIFIED = set()


def prepare():
    libs = e1.build_rt()
    src = os.path.join(sub("lints"), "noop.rs")
    open(src, "w").write(NOOP)
    noop = os.path.join(sub("lints"), "libnoop.so")
    p = run(["rustc", "--edition", "2021", "--crate-type", "proc-macro", "--crate-name", "noop", "-o", noop, src], envd=env())
    if p.returncode:
        raise ToolError("the stand-in for the derives does not compile: " + p.stderr[-500:])
    out = open(os.path.join(SPEC, "Lints.tla")).read()
    import re
    SPECIFIED.update(re.findall(r'Occasion\("(\w+)"', out))
    return libs, noop, other_lints(SPECIFIED)


def check(rep):
    rep.assumptions = ["occasions for lints are those of spec/Lints.tla; all lints of the compiler are on", "levels allow, warn, deny and expect (not forbid)"]
    design = model("MCLints", "derived code is silent if it inherits the settings of the declaration")
    libs, noop, others = prepare()
    for k in range(2 if rep.tier == "quick" else 20):
        for ed in ("2015", "2018", "2021", "2024"):
            one(rep, libs, noop, others, 300 if rep.tier == "quick" else 500, rep.seed + 1000 * k, ed, k % 2 == 0)
        if rep.violations:
            break
    st = design.result()
    rep.add(states=st[0], transitions=st[1])


def replay(r):
    from driver import Report
    rep = Report(r["property"], "quick", 1)
    libs, noop, others = prepare()
    one(rep, libs, noop, others, **r["params"])
    hit = [t for k, t, _ in rep.violations if k == r["key"]]
    print("\n".join(hit)[:3000])
    if hit:
        print(f"VIOLATION property={r['property']} replay={r['key'][:60]}")
        return 1
    return 0
