"""Scenarios of the name specification (spec/Hygiene.tla) as Rust modules, one line each."""
import os, re, threading
from common import *

KW = {"await", "match", "type", "fn", "async", "dyn", "try", "gen", "loop", "struct", "impl", "as", "mod", "use"}
P = "::std::primitive::"

PRELUDE = """#![allow(warnings)]
pub struct El0(pub ::std::primitive::u8);
pub struct El1(pub ::std::primitive::u8);
pub struct Al<const K: ::std::primitive::usize>;
pub trait Tr__<X: ?Sized> {}
pub trait Mk { fn mk() -> Self; }
impl<const K: ::std::primitive::usize> Mk for Al<K> { fn mk() -> Self { Al } }
pub trait Run { fn run(); }
pub struct Slot<const K: ::std::primitive::usize>;
#[macro_export] macro_rules! __zzid { ($($t:tt)*) => { $($t)* } }
"""


LATE = {"2015": {"async", "await", "dyn", "try", "gen"}, "2018": {"gen"}, "2021": {"gen"}, "2024": set()}
PLAIN = threading.local()       # the names that are written without r# at the moment


def nm(n, raw=False):
    if n in getattr(PLAIN, "names", ()):
        return n
    if n == "uni1":
        n = "\u00fcn\u00ef"
    return "r#" + n if n in KW or raw else n


def lt(n):
    return "'lt" if n in KW else "'" + nm(n)


class Scenario:
    def __init__(self, it):
        self.id, self.sc, self.hole = it["id"], it["sc"], it["cap"]
        self.got = it["got"]
        self.n = 0
        self.spell = self.sc["spell"]
        self.alias = {}

    def pick(self, opts):
        self.n += 1
        return opts[(self.spell // (1 + self.n) + self.n) % len(opts)]

    # ------------------------------------------------------------- the surroundings
    def env(self):
        o = []
        for k, e in enumerate(self.sc["env"]):
            n, kd = nm(e["n"]), e["k"]
            if kd == "struct":
                o.append(f"pub struct {n}; impl crate::Mk for {n} {{ fn mk() -> Self {{ {n} {{}} }} }}")
            elif kd == "tstruct":
                o.append(f"pub struct {n}(pub {P}u8); impl crate::Mk for {n} {{ fn mk() -> Self {{ {n} {{ 0: 7 }} }} }}")
            elif kd == "enum":
                o.append(f"pub enum {n} {{ V }} impl crate::Mk for {n} {{ fn mk() -> Self {{ {n}::V }} }}")
            elif kd == "trait":
                o.append(f"pub trait {n} {{}}")
            elif kd == "btrait":
                o.append(f"pub trait {n} {{ type Output; fn func_map(&self) {{}} fn try_func_map(&self) {{}} fn func_map_over(&self) {{}} }} "
                         f"impl<__Zz> {n} for __Zz {{ type Output = {P}u8; }}")
            elif kd == "mod":
                o.append(f"pub mod {n} {{ pub use ::funcmap::*; }}")
            elif kd == "alias":
                o.append(f"pub type {n} = crate::Al<{self.id * 100 + k}>;")
            elif kd == "fn":
                o.append(f"pub fn {n}() {{}}")
            elif kd == "const":
                o.append(f"pub const {n}: {P}u8 = 1;")
            elif kd == "static":
                o.append(f"pub static {n}: {P}u8 = 1;")
        used = {x for p in self.sc["ps"] for x in p["b"]} | set(self.sc["macs"])
        for x in sorted(used):
            o.append(f"impl crate::Tr__<{nm(x)}> for crate::El0 {{}} impl crate::Tr__<{nm(x)}> for crate::El1 {{}}")
        for k, x in enumerate(self.sc["macs"]):
            o.append(f"macro_rules! __zzh{k} {{ () => {{ {nm(x)} }} }}")
        return " ".join(o)

    # ------------------------------------------------------------- the declaration
    def arrlen(self):
        ks = [p for p in self.sc["ps"] if p["k"] == "const"]
        return ks[0]["n"] if ks and self.spell % 2 else None

    def fty(self, t, args=None):
        """args: what stands for the parameters (None: their names)"""
        def par(i):
            return nm(self.sc["ps"][i - 1]["n"], self.raw_use(i)) if args is None else args[i - 1]
        c = t["c"]
        if c == "V":
            return par(t["p"])
        if c == "Opt":
            return f"::std::option::Option<{par(t['p'])}>"
        if c == "Arr":
            n = self.arrlen()
            return f"[{par(t['p'])}; {nm(n) if n and args is None else 2}]"
        if c == "Tup":
            return f"({par(t['p'])}, {P}u8)"
        if c == "Ph":
            return f"::std::marker::PhantomData<{par(t['p'])}>"
        if c == "Env":
            return nm(t["n"])
        if c == "Lt":
            return f"&{lt(self.sc['ps'][t['p'] - 1]['n']) if args is None else chr(39) + 'static'} crate::El0"
        raise ToolError("unknown type " + c)

    def raw_use(self, i):
        self.n += 1
        return self.sc["ps"][i - 1]["raw"] and self.n % 2 == 0

    def item(self, derived=True):
        sc = self.sc
        PLAIN.names = LATE[sc["edition"]] if sc["plain"] else ()
        self.n = 0
        hard = sc["place"] == "macrohard"
        frag = []       # (name, kind, text)

        def put(kind, text):
            if not hard:
                return text
            frag.append((f"$x{len(frag)}", kind, text))
            return frag[-1][0]
        o = []
        if derived:
            ds = {"FuncMap": self.pick(["::funcmap::FuncMap"]), "TryFuncMap": "::funcmap::TryFuncMap"}
            o.append("#[derive(" + ", ".join(ds[d] for d in sc["derives"]) + ")]")
            opts = []
            if not sc["all"]:
                opts.append("params(" + ", ".join(nm(p["n"], self.raw_use(i + 1)) for i, p in enumerate(sc["ps"]) if p["sel"]) + ")")
            path = {"none": None, "abs": "::funcmap", "rel": nm(sc["pmod"]), "self": "self::" + nm(sc["pmod"]),
                    "crate": f"crate::s{self.id}::" + nm(sc["pmod"])}[sc["pform"]]
            if path:
                opts.append(f'crate = "{path}"')
            if opts:
                if self.spell % 5 < 2:
                    opts.reverse()
                o += [f"#[funcmap({', '.join(opts)})]"] if self.spell % 3 else [f"#[funcmap({x})]" for x in opts]
        gens, wh = [], []
        for i, p in enumerate(sc["ps"]):
            if p["k"] == "lt":
                gens.append(lt(p["n"]))
                continue
            n = put("ident", nm(p["n"], p["raw"]))
            if p["k"] == "const":
                gens.append(f"const {n}: {P}usize")
                continue
            bs = [f"crate::Tr__<{put('ty', nm(x))}>" for x in p["b"]]
            if i == next(j for j, q in enumerate(sc["ps"]) if q["k"] == "ty"):
                for k, x in enumerate(sc["macs"]):
                    bs.append(f"crate::Tr__<{'crate::__zzid!(' + nm(x) + ')' if self.spell % 2 else f'__zzh{k}!()'}>")
            if bs and self.spell % 3 == 1:
                wh.append(f"{nm(p['n'])}: {' + '.join(bs)}")
                bs = []
            gens.append(n + (": " + " + ".join(bs) if bs else ""))
        where = " where " + ", ".join(wh) if wh else ""

        def body(v, first, end):
            fs = [(nm(f["n"]) if f["n"] else "", put("ty", self.fty(f["ty"]))) for f in v["fs"]]
            if first and sc["extra"]:
                fs.append(("__zzq" if v["style"] == "named" else "", f"::std::marker::PhantomData<fn({', '.join(nm(x) for x in sc['extra'])})>"))
            pub = "pub " if end is not None else ""
            if v["style"] == "named":
                return (where if end is not None else "") + " { " + ", ".join(f"{pub}{a}: {t}" for a, t in fs) + " }"
            if v["style"] == "tuple":
                return "(" + ", ".join(pub + t for _, t in fs) + ")" + (where + ";" if end is not None else "")
            return where + ";" if end is not None else ""
        head = put("ident", nm(sc["item"]["n"], sc["item"]["raw"]))
        if sc["kind"] == "struct":
            o.append(f"pub struct {head}<{', '.join(gens)}>" + body(sc["vs"][0], True, True))
        else:
            o.append(f"pub enum {head}<{', '.join(gens)}>{where} {{ " + ", ".join(nm(v["n"]) + body(v, k == 0, None) for k, v in enumerate(sc["vs"])) + " }")
        text = " ".join(o)
        if sc["place"] == "macro":
            return f"macro_rules! __zzm {{ () => {{ {text} }} }} __zzm! {{}}"
        if hard:
            pat = " ".join(f"{a}:{k};" for a, k, _ in frag)
            return f"macro_rules! __zzm {{ ({pat}) => {{ {text} }} }} __zzm! {{ {' '.join(t + ';' for _, _, t in frag)} }}"
        return text

    # ------------------------------------------------------------- its use
    def args(self, changed):
        return [f"crate::El1" if i == changed else "crate::El0" if p["k"] == "ty" else "2" for i, p in enumerate(self.sc["ps"]) if p["k"] != "lt"]

    def value(self, t, k):
        c = t["c"]
        e = f"crate::El0({k})"
        return {"V": e, "Opt": f"::std::option::Option::Some({e})", "Arr": f"[{e}, crate::El0({k + 1})]", "Tup": f"({e}, 9)", "Ph": "::std::marker::PhantomData",
                "Env": f"<{nm(t['n'])} as crate::Mk>::mk()", "Lt": "&crate::El0(5)"}[c]

    def tests(self, derived=True):
        sc = self.sc
        o = []
        for d in sc["derives"]:
            for i, p in enumerate(sc["ps"]):
                if p["k"] != "ty" or not p["sel"]:
                    continue
                idx = [j for j, q in enumerate(sc["ps"]) if q["k"] != "lt"].index(i)
                for vi, v in enumerate(sc["vs"]):
                    path = nm(sc["item"]["n"]) if sc["kind"] == "struct" else f"{nm(sc['item']['n'])}::{nm(v['n'])}"
                    fs = list(v["fs"]) + ([{"n": "__zzq" if v["style"] == "named" else "", "ty": {"c": "Ph", "n": ""}}] if vi == 0 and sc["extra"] else [])
                    names = [nm(f["n"]) if f["n"] else str(j) for j, f in enumerate(fs)]
                    ctor = f"{path} {{ " + ", ".join(f"{n}: {self.value(f['ty'], 10 * j + 3)}" for j, (n, f) in enumerate(zip(names, fs))) + " }"
                    ta, tb = ", ".join(self.args(-1)), ", ".join(self.args(i))
                    it = nm(sc["item"]["n"])
                    tp = f"::funcmap::TypeParam<{idx}>"
                    cnt = sum({"V": 1, "Opt": 1, "Arr": 2, "Tup": 1}.get(f["ty"]["c"], 0) for f in v["fs"] if f["ty"].get("p") == i + 1)
                    o.append(f"{{ let __zzv: {it}<{ta}> = {ctor}; let mut __zzn = 0;")
                    call = "__zzn += 1; crate::El1(__zza.0 + 100)"
                    if not derived:
                        o.append("}")
                        continue
                    if d == "FuncMap":
                        o.append(f"let __zzo: {it}<{tb}> = ::funcmap::FuncMap::<crate::El0, crate::El1, {tp}>::func_map(__zzv, |__zza: crate::El0| {{ {call} }});")
                    else:
                        o.append(f"let __zzo: {it}<{tb}> = match ::funcmap::TryFuncMap::<crate::El0, crate::El1, {tp}>::try_func_map(__zzv, |__zza: crate::El0| {{ {call.replace('crate::El1(', '::std::result::Result::Ok::<crate::El1, crate::El1>(crate::El1(')}) }})"
                                 " { ::std::result::Result::Ok(__zzo) => __zzo, _ => ::std::panic!() };")
                    o.append(f"::std::assert!(__zzn == {cnt});")
                    o.append(f"match __zzo {{ {path} {{ " + ", ".join(f"{n}: __zz{j}" for j, n in enumerate(names)) + " } => {")
                    for j, f in enumerate(fs):
                        t, b, k = f["ty"], f"__zz{j}", 10 * j + 3
                        hit = t.get("p") == i + 1
                        w, ty = (k + 100, "crate::El1") if hit else (k, "crate::El0")
                        if t["c"] == "V":
                            o.append(f"let {b}: {ty} = {b}; ::std::assert!({b}.0 == {w});")
                        elif t["c"] == "Opt":
                            o.append(f"let {b}: {ty} = {b}.unwrap(); ::std::assert!({b}.0 == {w});")
                        elif t["c"] == "Arr":
                            o.append(f"let {b}: [{ty}; 2] = {b}; ::std::assert!({b}[0].0 == {w} && {b}[1].0 == {w + 1});")
                        elif t["c"] == "Tup":
                            o.append(f"let {b}: ({ty}, {P}u8) = {b}; ::std::assert!({b}.0.0 == {w} && {b}.1 == 9);")
                        elif t["c"] == "Env":
                            o.append(f"let {b}: {nm(t['n'])} = {b};")
                        elif t["c"] == "Lt":
                            o.append(f"::std::assert!({b}.0 == 5);")
                        elif t["c"] == "Ph" and "p" in t:
                            o.append(f"let {b}: ::std::marker::PhantomData<{ty}> = {b};")
                    o.append("}" + (", _ => ::std::panic!()" if sc["kind"] == "enum" and len(sc["vs"]) > 1 else "") + " } }")
        return " ".join(o)

    def module(self, derived=True):
        sc = self.sc
        PLAIN.names = LATE[sc["edition"]] if sc["plain"] else ()
        run = f"impl crate::Run for crate::Slot<{self.id}> {{ fn run() {{ {self.tests(derived)} }} }}"
        env, item = self.env(), self.item(derived)
        outer = env if sc["place"] not in ("fn", "const") or sc["pform"] in ("self", "crate") else ""
        inner = (env if not outer else "") + f" {item} {run}"
        if sc["place"] == "fn":
            inner = f"pub fn __zzscope() {{ {inner} }}"
        elif sc["place"] == "const":
            inner = f"const _: () = {{ {inner} }};"
        return f"pub mod s{self.id} {{ {'#![no_implicit_prelude] ' if sc['nip'] else ''}{outer} {inner} }}"


def source(scs, edition, renamed, derived=True):
    head = PRELUDE
    if edition == "2015":
        head = head.replace("#![allow(warnings)]\n", "#![allow(warnings)]\nextern crate funcmap;\n")
    if renamed:
        head = head.replace("#![allow(warnings)]\n", "#![allow(warnings)]\nextern crate std as core;\nextern crate std as alloc;\n")
    lines = head.rstrip("\n").split("\n")
    owner = [None] * len(lines)
    for s in scs:
        lines.append(s.module(derived).replace("\n", " "))
        owner.append(s)
    lines.append("fn main() {")
    for s in scs:
        lines.append(f"let __zzr = ::std::panic::catch_unwind(|| <crate::Slot<{s.id}> as crate::Run>::run()); ::std::println!(\"{{}} {s.id}\", if __zzr.is_ok() {{ \"OK\" }} else {{ \"BAD\" }});")
        owner += [None]
    lines.append("}")
    return "\n".join(lines) + "\n", [None] + [None] * 0 + owner + [None] * 4
