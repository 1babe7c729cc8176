"""Declarations of the derive specification (spec/Derive.tla) as Rust source, with the place of every part."""
import json, os, re
from common import *
import render

LITS = ["u8", "String", "&'static str", "fn(u8) -> u8", "()", "*const u8", "Box<dyn Fn(u8)>", "<Vec<u8> as IntoIterator>::Item",
        "[u8; 3]", "Box<[u8]>", "Drp", "Box<dyn Drop>"]
GEN = {"Option": ["Option", "std::option::Option", "::core::option::Option", "<crate::pre::Opts as crate::pre::Gat>::Of", "Option::"],
       "Vec": ["Vec", "std::vec::Vec", "::std::vec::Vec", "<crate::pre::Vecs as super::pre::Gat>::Of", "std::vec::Vec::"],
       "Box": ["Box", "std::boxed::Box"], "Result": ["Result", "::std::result::Result"], "ControlFlow": ["std::ops::ControlFlow", "ControlFlow"],
       "BTreeMap": ["BTreeMap", "std::collections::BTreeMap"], "HashMap": ["HashMap", "std::collections::HashMap"],
       "Phantom": ["PhantomData", "::std::marker::PhantomData"], "VecDeque": ["std::collections::VecDeque", "VecDeque"],
       "Cell": ["Cell", "std::cell::Cell"], "Poll": ["Poll", "::std::task::Poll"]}
CRATES = {1: '"::funcmap"', 2: '"funcmap"', 3: '"crate::reex::fm"', 4: '"::funcmap2"'}
BADCRATES = ['crate = 5', 'crate = "a b"', 'crate = "a::"', 'crate = ""', 'crate', 'crate("x")', 'crate = funcmap']
JUNK = ['foo', 'foo = 1', '"x"', '3', 'params', 'params = "T"']
BADPARAM = ['3', '"T"', 'T::X']
UNKNOWN = ["Zz", "Zy", "'zz"]
DERIVES = [["#[derive(funcmap::FuncMap)]"], ["#[derive(funcmap::TryFuncMap)]"], ["#[derive(funcmap::FuncMap, funcmap::TryFuncMap)]"],
           ["#[derive(TryFuncMap)]", "#[derive(::funcmap::FuncMap)]"], ["#[derive(::funcmap::TryFuncMap, FuncMap)]"]]
TRAITS = [["FuncMap"], ["TryFuncMap"], ["FuncMap", "TryFuncMap"], ["FuncMap", "TryFuncMap"], ["FuncMap", "TryFuncMap"]]

PRELUDE = """#![allow(warnings)]

pub mod reex { pub use ::funcmap as fm; }
macro_rules! m0 { () => { u8 } }
pub mod pre {
    pub use funcmap::{FuncMap, TryFuncMap};
    pub use std::{collections::*, cell::Cell, marker::PhantomData, ops::ControlFlow, task::Poll};
    pub trait Tr { type As; }
    pub trait Gat { type Of<X>; }
    pub struct Opts; impl Gat for Opts { type Of<X> = Option<X>; }
    pub struct Vecs; impl Gat for Vecs { type Of<X> = Vec<X>; }
    pub trait TrG<T> { type Out; }
    impl<T> TrG<T> for u8 { type Out = u16; }
    pub trait Tz<T> { fn tz(&self, t: T) {} }
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)] pub struct A0(pub u8);
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)] pub struct B0(pub u8);
    impl Tr for A0 { type As = u32; }
    impl Tr for B0 { type As = u64; }
    impl Tr for u8 { type As = u64; }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)] pub struct Drp(pub u8);
    impl Drop for Drp { fn drop(&mut self) {} }
    impl Tr for Drp { type As = u64; }
    #[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)] pub struct DrpB(pub u8);
    impl Drop for DrpB { fn drop(&mut self) {} }
    impl Tr for DrpB { type As = u64; }
    pub mod g1 {
        #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct Gen1<X>(pub X);
        #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] pub struct Gen2<'x, X, const N: usize, Y>(pub X, pub [Y; N], pub &'x u8);
        pub struct GenD<X>(pub Option<X>);
        impl<X> Drop for GenD<X> { fn drop(&mut self) {} }
        impl<X, Y> funcmap::FuncMap<X, Y> for GenD<X> { type Output = GenD<Y>; fn func_map<F: FnMut(X) -> Y>(mut self, f: F) -> GenD<Y> { GenD(self.0.take().map(f)) } }
        impl<X, Y> funcmap::TryFuncMap<X, Y> for GenD<X> { type Output = GenD<Y>; fn try_func_map<E, F: FnMut(X) -> Result<Y, E>>(mut self, f: F) -> Result<GenD<Y>, E> { Ok(GenD(self.0.take().map(f).transpose()?)) } }
    }
    pub mod g2 {
        #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] #[funcmap(crate = "::funcmap2")] pub struct Gen1<X>(pub X);
        #[derive(funcmap::FuncMap, funcmap::TryFuncMap)] #[funcmap(crate = "::funcmap2")] pub struct Gen2<'x, X, const N: usize, Y>(pub X, pub [Y; N], pub &'x u8);
        pub struct GenD<X>(pub Option<X>);
        impl<X> Drop for GenD<X> { fn drop(&mut self) {} }
        impl<X, Y> funcmap2::FuncMap<X, Y> for GenD<X> { type Output = GenD<Y>; fn func_map<F: FnMut(X) -> Y>(mut self, f: F) -> GenD<Y> { GenD(self.0.take().map(f)) } }
        impl<X, Y> funcmap2::TryFuncMap<X, Y> for GenD<X> { type Output = GenD<Y>; fn try_func_map<E, F: FnMut(X) -> Result<Y, E>>(mut self, f: F) -> Result<GenD<Y>, E> { Ok(GenD(self.0.take().map(f).transpose()?)) } }
    }
    pub trait Absent { const HAS: bool = false; }
}
"""


class Out:
    """Text with remembered places."""

    def __init__(self, base=0):
        self.parts, self.pos, self.at = [], base, {}

    def w(self, s):
        self.parts.append(s)
        self.pos += len(s)
        return self

    def text(self):
        return "".join(self.parts)

    def mark(self, loc):
        out = self

        class M:
            def __enter__(m):
                m.s = out.pos

            def __exit__(m, *a):
                out.at[tuple(loc)] = (m.s, out.pos)
        return M()


class Item:
    def __init__(self, case):
        self.case, self.it, self.id = case, case["it"], case["id"]
        it = self.it
        self.spell = it["spell"]
        self.frags = None
        self.lts = ["'a", "'b", "'c"][:it["lts"]]
        pn = render.PNAMES[it["names"] % len(render.PNAMES)]
        self.ps, ti = [], 0
        for i, p in enumerate(it["ps"]):
            if p == "ty":
                self.ps.append(pn[ti])
                ti += 1
            else:
                self.ps.append(["N", "M", "K", "L"][i])
        self.gmod = "g2" if case["cr"] == 4 else "g1"
        self.name = f"D{self.id}"
        self.tr_params = set()
        for v in it["vs"]:
            for f in v["fs"]:
                self._find_tr(f["ty"])
        self.n = 0

    def _find_tr(self, t):
        if t["c"] in ("AssocV", "AssocQ") and t["a"][0]["c"] == "V":
            self.tr_params.add(t["a"][0]["n"])
        for a in t["a"]:
            self._find_tr(a)

    def lt(self, i=0):
        return self.lts[i % len(self.lts)] if self.lts else "'static"

    def pick(self, options):
        self.n += 1
        return options[(self.spell + self.n) % len(options)]

    def ty(self, o, t, loc):
        c, a, n = t["c"], t["a"], t["n"]
        with o.mark(loc):
            def go(i):
                self.ty(o, a[i], loc + [i])

            def lst(pre, items, post):
                o.w(pre)
                for k, i in enumerate(items):
                    if k:
                        o.w(", ")
                    go(i) if isinstance(i, int) else o.w(i)
                o.w(post)
            if c == "V":
                o.w(self.ps[n])
            elif c == "L":
                o.w(LITS[n])
            elif c == "LRef":
                o.w(f"&{self.lt(n)} u8")
            elif c == "K":
                o.w(str(n) if n >= 0 else self.ps[-1 - n])
            elif c == "LT":
                o.w(self.lt())
            elif c == "Mac":
                o.w(self.pick(["m0!()", "m0![]", "m0! {}"]))
            elif c == "Arr":
                o.w("[")
                go(0)
                o.w("; " + (str(n) if n >= 0 else self.ps[-1 - n]) + "]")
            elif c == "Paren":
                lst("(", [0], ")")
            elif c == "Frag":
                if self.frags is None:      # already inside one
                    go(0)
                else:
                    o.w(f"$f{len(self.frags)}")
                    self.frags.append((a[0], loc + [0]))
            elif c == "Tup":
                lst("(", range(len(a)), ",)" if len(a) == 1 else ")")
            elif c in ("Gen1", "Gen2", "GenD"):
                lst(self.pick(["", "crate::pre::", "super::pre::"]) + f"{self.gmod}::{c}<", range(len(a)), ">")
            elif c in GEN:
                lst(self.pick(GEN[c]) + "<", range(len(a)), self.pick([">", ">", ",>"]))
            elif c == "Ref":
                lst(f"&{self.lt()} ", [0], "")
            elif c == "RefMut":
                lst(f"&{self.lt()} mut ", [0], "")
            elif c == "PtrC":
                lst("*const ", [0], "")
            elif c == "PtrM":
                lst("*mut ", [0], "")
            elif c == "Slice":
                lst("[", [0], "]")
            elif c == "DynT":
                lst(self.pick(["dyn Tz<", "dyn Send + Tz<"]), [0], ">")
            elif c == "DynFn":
                lst(self.pick(["dyn Fn(", "dyn FnMut(u8, ", "dyn Fn(u8) -> ("]), [0], ")")
            elif c == "FnArg":
                lst(self.pick(["fn(", "extern \"C\" fn(u8, ", "unsafe fn("]), [0], ")")
            elif c == "FnRet":
                lst("fn() -> ", [0], "")
            elif c == "AssocV":
                lst("", [0], "::As")
            elif c == "AssocQ":
                lst("<", [0], " as Tr>::As")
            elif c == "AssocI":
                lst("<", [0], " as IntoIterator>::Item")
            elif c == "AssocP":
                lst("<u8 as TrG<", [0], ">>::Out")
            elif c == "Copyable":
                o.w("u8")
            else:
                raise ToolError("constructor " + c)

    def opt_attr(self, o, i, at):
        it = self.it
        with o.mark([-1, i]):
            if at["form"] == "path":
                o.w("#[funcmap]")
                return
            if at["form"] == "nv":
                o.w('#[funcmap = "x"]')
                return
            if at["form"] == "juxt":
                o.w('#[funcmap(crate = "::funcmap" params(T))]')
                return
            o.w(self.pick(["#[funcmap(", "#[funcmap( ", "#[funcmap["]))
            close = ")]" if o.parts[-1] != "#[funcmap[" else "]]"
            for j, g in enumerate(at["args"]):
                if j:
                    o.w(", ")
                if g["a"] == "crate":
                    if g["v"] >= 5:
                        o.w(BADCRATES[g["v"] - 5])
                    else:
                        o.w("crate = ")
                        with o.mark([-1, i, j, 0]):
                            o.w(CRATES[g["v"]])
                elif g["a"] == "params":
                    o.w("params(")
                    for x, r in enumerate(g["ps"]):
                        if x:
                            o.w(", ")
                        with o.mark([-1, i, j, x]):
                            k, n = r["k"], r["n"]
                            o.w(self.ps[n] if k == "ty" else self.lts[n] if k == "lt" else UNKNOWN[n] if k == "unknown" else BADPARAM[n])
                    o.w(self.pick([")", ")", ",)"]) if g["ps"] else ")")
                else:
                    o.w(JUNK[g["v"]])
            o.w(self.pick([close, close, "," + close]) if at["args"] else close)

    def mis_attr(self, o, loc):
        with o.mark(loc):
            o.w(self.pick(["#[funcmap(params(T))]", "#[funcmap]", '#[funcmap(crate = "x")]']))
        o.w(" ")

    def bounds(self, i):
        b = ["Tr"] if i in self.tr_params else []
        pb = self.it.get("pb", {}) and self.it["pb"][i]
        return b + (["Copy"] if pb == "copy" else ["Drop"] if pb == "drop" else [])

    def in_where(self):
        return self.it.get("drop") is not None and self.spell // 11 % 2 == 1

    def generics_decl(self):
        g = list(self.lts)
        for i, p in enumerate(self.it["ps"]):
            b = [] if self.in_where() else self.bounds(i)
            g.append(f"const {self.ps[i]}: usize" if p == "const" else self.ps[i] + (": " + " + ".join(b) if b else ""))
        return g

    def where_decl(self):
        w = [f"{self.ps[i]}: {' + '.join(self.bounds(i))}" for i in range(len(self.ps)) if self.bounds(i)] if self.in_where() else []
        return " where " + ", ".join(w) if w else ""

    def drop_impl(self):
        g = ", ".join(self.generics_decl())
        a = ", ".join(self.lts + self.ps)
        return f"impl<{g}> {['Drop', 'std::ops::Drop', '::core::ops::Drop'][self.spell % 3]} for {self.name}<{a}>{self.where_decl()} {{ fn drop(&mut self) {{}} }}\n"

    def decl(self, o):
        """the declaration; with fragments, it is the expansion of a macro"""
        outer = lambda t: 1 if t["c"] == "Frag" else sum(map(outer, t["a"]))
        n = 0 if self.it["kind"] == "union" else sum(outer(f["ty"]) for v in self.it["vs"] for f in v["fs"])
        self.frags = None
        if n == 0:
            return self.decl1(o)
        self.frags = []
        o.w("macro_rules! mk { (" + ", ".join(f"$f{k}:ty" for k in range(n)) + ") => { ")
        self.decl1(o)
        o.w("} }\nmk!(")
        frags, self.frags = self.frags, None
        for k, (t, loc) in enumerate(frags):
            if k:
                o.w(", ")
            self.ty(o, t, loc)
        o.w(");\n")

    def decl1(self, o):
        it = self.it
        derives = DERIVES[it["derives"]]
        head = [("d", d) for d in derives]
        for i, at in enumerate(it["attrs"]):
            # the options anywhere among the other attributes
            head.insert((self.spell // 7 + i) % (len(head) + 1) if self.spell % 3 == 0 else len(head), ("o", i))
        # keep the options in their order
        opts = iter([i for i in range(len(it["attrs"]))])
        head = [(k, next(opts) if k == "o" else v) for k, v in head]
        for k, v in head:
            if k == "d":
                o.w(v)
            else:
                self.opt_attr(o, v, it["attrs"][v])
            o.w(self.pick([" ", "\n", " #[allow(dead_code)] ", "\n/// doc\n"]))
        o.w("pub ")
        with o.mark([-2]):
            o.w(it["kind"])
        o.w(" ")
        g = self.generics_decl()
        if g:
            o.w(self.name)
            with o.mark([-3]):
                o.w("<" + ", ".join(g) + ">")
        else:
            with o.mark([-3]):
                o.w(self.name)
        if it["kind"] == "enum":
            o.w(self.where_decl() + " { ")
            for v in range(len(it["vs"])):
                for x in range(it["vs"][v]["at"]):
                    self.mis_attr(o, [-4, v, x])
                o.w(f"V{v}")
                self.body(o, v, "")
                o.w(", ")
            o.w("}")
        elif it["kind"] == "union":
            o.w(self.where_decl() + " { ")
            self.fields(o, 0, "named", "pub ")
            o.w(" }")
        else:
            st = it["styles"][0]
            if st == "named":
                o.w(self.where_decl())
            self.body(o, 0, "pub ")
            if st != "named":
                o.w(self.where_decl() + ";")
        o.w("\n")

    def body(self, o, v, vis):
        st = self.it["styles"][v]
        if st == "unit":
            return
        o.w("(" if st == "tuple" else " { ")
        self.fields(o, v, st, vis)
        o.w(")" if st == "tuple" else " }")

    def fields(self, o, v, st, vis):
        fs = self.it["vs"][v]["fs"]
        fn = render.field_names({"names": self.it["names"]}, v, len(fs))
        for j, f in enumerate(fs):
            if j:
                o.w(", ")
            for x in range(f["at"]):
                self.mis_attr(o, [-5, v, j, x])
            o.w(vis)
            if st == "named":
                o.w(fn[j] + ": ")
            self.ty(o, f["ty"], [v, j])

    def module(self, base):
        self.n = 0
        o = Out(base)
        o.w(f"mod m{self.id} {{ use super::pre::*;\n")
        s = o.pos
        self.decl(o)
        self.range = (s, o.pos)
        if it_drop(self):
            o.w(self.drop_impl())
            self.range = (s, o.pos)
        o.w("}\n")
        self.at = o.at
        return o.text()

    def conc(self, repl, a):
        """the type with parameter number repl replaced by a"""
        args = ["'static"] * len(self.lts)
        for i, p in enumerate(self.it["ps"]):
            args.append("2" if p == "const" else a if i == repl else "pre::Drp" if "Drop" in self.bounds(i) else "u8")
        return f"m{self.id}::{self.name}<" + ", ".join(args) + ">"


def it_drop(item):
    return bool(item.it.get("drop"))


def keywords(k):
    return {"malformed": [], "duplicate crate": ["duplicate", "crate"], "duplicate parameter": ["duplicate", "param"],
            "unknown parameter": ["unknown"], "lifetime parameter": ["lifetime"], "const parameter": ["const"],
            "no type parameter": ["type parameter", "none"], "union": ["union"], "variant attribute": ["variant"], "field attribute": ["field"],
            "reference": ["reference"], "pointer": ["pointer"], "slice": ["slice"], "trait object": ["trait object"],
            "function": ["function"], "associated": ["associated"], "macro": ["macro"]}[k]


OPTION_KINDS = {"malformed", "duplicate crate", "duplicate parameter", "unknown parameter", "lifetime parameter", "const parameter",
                "variant attribute", "field attribute"}


def prop_of(k):
    return "C11" if k in OPTION_KINDS else "C10"


# ---------------------------------------------------------------------------
def generate(mode, mix, n, seed, depth=1):
    out = tlc_ok(tlc("GenDerive", envd=dict(NITEMS=n, GENSEED=seed, MODE=mode, MIX=mix, DEPTH=depth), workers=1), "GenDerive")
    return [json.loads(x) for x in tlc_lines(out, "CASE")], tlc_stats(out)


def build_second(libs):
    """the same library once more, under another name"""
    d = sub("second")
    ext = [x for x in libs.arts if x == "funcmap_derive"]
    p = run(["rustc", "--edition", "2021", "--crate-name", "funcmap2", "--crate-type", "rlib", "--cap-lints", "allow",
             "--cfg", 'feature="std"', "--cfg", 'feature="alloc"', "--cfg", 'feature="default"', "-L", "dependency=" + libs.deps,
             "--extern", "funcmap_derive=" + libs.arts["funcmap_derive"], "-o", os.path.join(d, "libfuncmap2.rlib"),
             os.path.join(REPO, "funcmap/src/lib.rs")], envd=env(), timeout=300)
    if p.returncode:
        raise ToolError("cannot build the second copy of the library: " + p.stderr[-1500:])
    libs.arts["funcmap2"] = os.path.join(d, "libfuncmap2.rlib")


EXTERNS = ("funcmap", "funcmap2")


def program(items):
    text = PRELUDE
    for it in items:
        text += it.module(len(text))
    return text


def where(d, items, fname):
    """(item, (start, end)) of a diagnostic, outermost place in our file"""
    def place(sp):
        # the place in our file: through the expansions if it is inside a macro
        while sp is not None:
            if os.path.basename(sp["file_name"]) == fname:
                return (sp["byte_start"], sp["byte_end"])
            sp = sp["expansion"]["span"] if sp.get("expansion") else None
        return None
    for sp in d["spans"]:
        if sp["is_primary"]:
            r = place(sp)
            if r:
                return r
    return None


def owner(r, items):
    lo, hi = 0, len(items)
    while lo < hi:
        mid = (lo + hi) // 2
        if items[mid].range[1] <= r[0]:
            lo = mid + 1
        else:
            hi = mid
    return items[lo] if lo < len(items) and items[lo].range[0] <= r[0] < items[lo].range[1] else None


def explain(item, r, msg):
    """(loc, kind) of the specification that a diagnostic at place r with this message is"""
    low = msg.lower()
    best = None
    for e in item.case["errs"] + item.case["tol"]:
        s = item.at.get(tuple(e["loc"]))
        if s is None:
            raise ToolError(f"no place for {e} in item {item.id}")
        hit = s[0] <= r[0] and r[1] <= s[1] if e["k"] == "malformed" else r == s
        if hit and all(w in low for w in keywords(e["k"])):
            return (tuple(e["loc"]), e["k"])
    return best


def pass_a(items, libs):
    """Diagnostics of the macros, per item: [(place, message)]; plus the ones without an item"""
    src = os.path.join(sub("e2"), "a.rs")
    text = program(items)
    open(src, "w").write(text)
    ok, diags, p = rustc(src, libs, metadata=True, externs=EXTERNS, extra=("--crate-type", "bin"))
    if "internal compiler error" in p.stderr:
        raise ToolError("the compiler crashed: " + p.stderr[-800:])
    got = {it.id: [] for it in items}
    stray = []
    for d in diags:
        if d.get("code") or d["message"].startswith("aborting due to"):
            continue
        r = where(d, items, "a.rs")
        it = owner(r, items) if r else None
        if it is None:
            stray.append(d)
        else:
            got[it.id].append((r, d["message"]))
    return got, stray, text


def pass_b(items, libs, tag="b"):
    """Compiles accepted items and asks the compiler which implementations exist.
    Returns id -> {(trait, lib, n): bool} and id -> error for the ones that do not compile."""
    failed, answers = {}, {}
    left = list(items)
    for attempt in range(12):
        if not left:
            break
        text = program(left)
        main = ["fn main() {"]
        for it in left:
            for tr in ("FuncMap", "TryFuncMap"):
                for lib in ("funcmap", "funcmap2"):
                    for n in range(len(it.it["ps"])):
                        ta, tb = ("pre::Drp", "pre::DrpB") if "Drop" in it.bounds(n) else ("pre::A0", "pre::B0")
                        a, b = it.conc(n, ta), it.conc(n, tb)
                        out = f", Output = {b}" if it.it["ps"][n] == "ty" else ""
                        bound = f"{lib}::{tr}<{ta}, {tb}, {lib}::TypeParam<{n}>{out}>"
                        main.append(f"  {{ struct P<X>(std::marker::PhantomData<X>); impl<X> pre::Absent for P<X> {{}} "
                                    f"impl<X: {bound}> P<X> {{ const HAS: bool = true; }} "
                                    f"use pre::Absent; println!(\"{it.id} {tr} {lib} {n} {{}}\", <P<{a}>>::HAS); }}")
        main.append("}")
        base = text.count("\n")
        text += "\n".join(main) + "\n"
        src = os.path.join(sub("e2"), f"{tag}{attempt}.rs")
        exe = src[:-3]
        open(src, "w").write(text)
        ok, diags, p = rustc(src, libs, out=exe, externs=EXTERNS, extra=("-Copt-level=0",))
        if ok:
            q = run([exe], timeout=60)
            for l in q.stdout.splitlines():
                i, tr, lib, n, v = l.split()
                answers.setdefault(int(i), {})[(tr, lib, int(n))] = v == "true"
            break
        bad = {}
        for d in diags:
            r = where(d, left, os.path.basename(src))
            it = owner(r, left) if r else None
            if it is None and r:
                # in a probe: the line says which
                line = text[text.rfind("\n", 0, r[0]) + 1:text.find("\n", r[0])]
                if "println!(\"" in line:
                    i = int(line.split("println!(\"")[1].split()[0])
                    it = next(x for x in left if x.id == i)
            if it is not None:
                bad.setdefault(it.id, d.get("rendered", d["message"])[:1200])
        if not bad:
            raise ToolError("declarations do not compile, for no reason of theirs: " + "".join(d.get("rendered", "") for d in diags)[:2000])
        failed.update(bad)
        left = [x for x in left if x.id not in bad]
    else:
        raise ToolError("too many rounds of compile errors")
    return answers, failed


def alone(items, libs, cr):
    """Compiles accepted items that reach the library by path number cr in a crate where there is no other way to it.
    Returns id -> error."""
    name, ext = ("funcmap2", "funcmap2") if cr == 4 else ("fmx", "funcmap=fmx")
    cut = [PRELUDE.index("    pub mod g1"), PRELUDE.index("    pub mod g2"), PRELUDE.index("    pub trait Absent")]
    pre = PRELUDE[:cut[0]] + (PRELUDE[cut[1]:cut[2]] if cr == 4 else PRELUDE[cut[0]:cut[1]].replace(")] pub struct", ')] #[funcmap(crate = "::fmx")] pub struct')) + PRELUDE[cut[2]:]
    sub_ = lambda t: re.sub(r"\bfuncmap\b(?=::| as )", name, t)
    failed, left = {}, list(items)
    for attempt in range(6):
        text, at = sub_(pre), []
        for it in left:
            m = sub_(it.module(0))
            at.append((len(text), len(text) + len(m), it))
            text += m
        src = os.path.join(sub("e2"), f"alone{cr}_{attempt}.rs")
        open(src, "w").write(text + "fn main() {}\n")
        ok, diags, _ = rustc(src, libs, metadata=True, externs=(ext,))
        if ok:
            return failed
        bad = {}
        for d in diags:
            r = where(d, left, os.path.basename(src))
            for s, e, it in at:
                if r and s <= r[0] < e:
                    bad.setdefault(it.id, d.get("rendered", d["message"])[:1200])
        if not bad:     # the declarations that all of them use
            failed[None] = "".join(d.get("rendered", "") for d in diags)[:1500]
            return failed
        failed.update(bad)
        left = [x for x in left if x.id not in bad]
    return failed


def source(item):
    o = Out()
    item.n = 0
    item.decl(o)
    return o.text()
