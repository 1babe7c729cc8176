"""From the type expressions of the specification to Rust source."""
import re

LIB = {
    "Box": "std::boxed::Box", "Cell": "std::cell::Cell", "RefCell": "std::cell::RefCell", "UnsafeCell": "std::cell::UnsafeCell",
    "RangeFrom": "std::ops::RangeFrom", "RangeTo": "std::ops::RangeTo", "RangeToInclusive": "std::ops::RangeToInclusive",
    "Range": "std::ops::Range", "RangeInclusive": "std::ops::RangeInclusive", "Option": "std::option::Option",
    "OptIter": "std::option::IntoIter", "ResIter": "std::result::IntoIter", "Poll": "std::task::Poll", "Bound": "std::ops::Bound",
    "Vec": "std::vec::Vec", "VecIter": "std::vec::IntoIter", "VecDeque": "std::collections::VecDeque",
    "VecDequeIter": "std::collections::vec_deque::IntoIter", "LinkedList": "std::collections::LinkedList",
    "LinkedListIter": "std::collections::linked_list::IntoIter", "Phantom": "std::marker::PhantomData",
    "BTreeSet": "std::collections::BTreeSet", "BTreeSetIter": "std::collections::btree_set::IntoIter",
    "HashSet": "std::collections::HashSet", "HashSetIter": "std::collections::hash_set::IntoIter",
    "BinaryHeap": "std::collections::BinaryHeap", "BinaryHeapIter": "std::collections::binary_heap::IntoIter",
    "BTreeMap": "std::collections::BTreeMap", "BTreeMapIter": "std::collections::btree_map::IntoIter",
    "HashMap": "std::collections::HashMap", "HashMapIter": "std::collections::hash_map::IntoIter",
    "Result": "std::result::Result", "ControlFlow": "std::ops::ControlFlow",
}
ARITY = dict.fromkeys(["BTreeMap", "BTreeMapIter", "HashMap", "HashMapIter", "Result", "ControlFlow"], 2)
LITS = ["u8", "std::string::String", "&'static str", "fn(u8) -> u8", "()", "&'a u8"]


class Spell:
    """Ways to write the same named type: with or without leading ::, with ::<..>, as generic associated type."""

    def __init__(self, n, plain=False):
        self.n, self.k, self.plain = n, 0, plain

    def open(self, c, arity):
        self.k += 1
        how = 0 if self.plain else (self.n * 7 + self.k * (self.n % 11 + 3)) % 8
        how = 0 if how == 7 and arity != ARITY.get(c, 1) else how
        return {5: "::" + LIB[c] + "<", 6: LIB[c] + "::<", 7: f"<crate::gat::{c} as crate::gat::G{arity}>::Of<"}.get(how, LIB[c] + "<")


def gat_mod(text):
    """the module gat with what the text needs of it"""
    cs = sorted(set(re.findall(r"<crate::gat::(\w+) as", text)))
    o = ["pub trait G1 { type Of<X>; } pub trait G2 { type Of<X, Y>; }"]
    for c in cs:
        g = "X, Y" if f"crate::gat::{c} as crate::gat::G2" in text else "X"
        o.append(f"pub struct {c}; impl G{len(g.split(','))} for {c} {{ type Of<{g}> = {LIB[c]}<{g}>; }}")
    return "pub mod gat { " + " ".join(o) + " }\n" if cs else ""


def ty(t, params, defs, leaf=None, sp=Spell(0, True)):
    """params: names of the parameters (by number); leaf: text for "P"."""
    c, a, n = t["c"], t["a"], t["n"]
    go = lambda x: ty(x, params, defs, leaf, sp)
    if c == "V":
        return params[n]
    if c == "P":
        return leaf
    if c == "L":
        return LITS[n]
    if c == "Tup":
        return "(" + "".join(go(x) + ", " for x in a).rstrip() + ")" if len(a) == 1 else "(" + ", ".join(map(go, a)) + ")"
    if c == "Paren":
        return "(" + go(a[0]) + ")"
    if c == "Arr":
        return "[" + go(a[0]) + "; " + (str(n) if n >= 0 else params[-1 - n]) + "]"
    if c == "K":
        return str(n) if n >= 0 else params[-1 - n]
    if c == "User":
        d = defs[n - 1]
        args = (["'static"] if d["lt"] else []) + [go(x) for x in a]
        return f"D{n}<" + ", ".join(args) + ">"
    return sp.open(c, len(a)) + ", ".join(map(go, a)) + ">"


PNAMES = [["T", "U", "V", "W"], ["A", "B", "C", "D"], ["S", "T", "F", "E"], ["B", "A", "F", "R"], ["P", "Q", "Fm", "Output_"]]
FNAMES = [["x", "y", "z"], ["value", "f", "field_0"], ["f", "src", "x0"], ["r#type", "r#fn", "self_"], ["field_1", "field_0", "b"]]


def names(d):
    pn = PNAMES[d["names"] % len(PNAMES)]
    ti = 0
    ps = []
    for i, p in enumerate(d["ps"]):
        if p == "ty":
            ps.append(pn[ti] if ti < len(pn) else f"{pn[0]}{ti}")
            ti += 1
        else:
            ps.append(["N", "M", "K", "L"][i])
    return ps


def field_names(d, v, n):
    fn = FNAMES[(d["names"] // 7 + v) % len(FNAMES)]
    return [fn[i] if i < len(fn) else f"g{i}" for i in range(n)]


def generics(d, bounds=""):
    ps = names(d)
    out = ["'a"] if d["lt"] else []
    for p, nm in zip(d["ps"], ps):
        out.append(nm + bounds if p == "ty" else f"const {nm}: usize")
    return out


def fields(d, v, defs, plain=True):
    ps = names(d)
    sp = Spell(d["names"] + v, plain)
    return [ty(t, ps, defs, None, sp) for t in d["vs"][v]]


def body(d, v, defs, struct):
    fs = fields(d, v, defs, False)
    st = d["styles"][v]
    vis = "pub " if struct else ""
    if st == "unit":
        return ""
    if st == "tuple":
        return "(" + ", ".join(vis + f for f in fs) + ")"
    return " { " + ", ".join(f"{vis}{n}: {f}" for n, f in zip(field_names(d, v, len(fs)), fs)) + " }"


def definition(k, d, defs, attrs="#[derive(funcmap::FuncMap, funcmap::TryFuncMap)]"):
    g = ", ".join(generics(d))
    if not d["enum"]:
        b = body(d, 0, defs, True)
        return f"{attrs} pub struct D{k}<{g}>{b}" + ("" if b.startswith(" {") else ";")
    vs = ", ".join(f"V{v}" + body(d, v, defs, False) for v in range(len(d["vs"])))
    return f"{attrs} pub enum D{k}<{g}> {{ {vs} }}"


def build_observe(k, d, defs):
    """impl Bld and impl Obs of a user-defined type"""
    ps = names(d)
    args = (["'static"] if d["lt"] else []) + ps
    self_ty = f"D{k}<" + ", ".join(args) + ">"
    keys = {names(d)[i] for i in d["kps"]}

    def head(tr):
        gs = [p if p.startswith("const ") else p + f": rt::{tr}" + (" + Ord + std::hash::Hash" if p in keys else "") for p in generics(d) if p != "'a"]
        return f"impl<{', '.join(gs)}> rt::{tr} for {self_ty}"
    b, o = [], []
    for v in range(len(d["vs"])):
        n = len(d["vs"][v])
        path = f"D{k}::V{v}" if d["enum"] else f"D{k}"
        vars_ = [f"a{i}" for i in range(n)]
        st = d["styles"][v]
        fn = field_names(d, v, n)
        bl = [f"<{f.replace(chr(39) + 'a ', chr(39) + 'static ')} as rt::Bld>::bld(r)" for f in fields(d, v, defs)]
        mk = path if st == "unit" else path + "(" + ", ".join(bl) + ")" if st == "tuple" \
            else path + " { " + ", ".join(f"{x}: {b}" for x, b in zip(fn, bl)) + " }"
        pat = path if st == "unit" else path + "(" + ", ".join(vars_) + ")" if st == "tuple" \
            else path + " { " + ", ".join(f"{x}: {a}" for x, a in zip(fn, vars_)) + " }"
        b.append(f"{v if v < len(d['vs']) - 1 else '_'} => {mk},")
        o.append(f"{pat} => {{ o.open(\"User\", {v}); " + " ".join(f"o.kid({a});" for a in vars_) + " o.close(); }")
    return (f"{head('Bld')} {{ fn bld(r: &mut rt::Rd) -> Self {{ match r.hd().v {{ {' '.join(b)} }} }} }}\n"
            f"{head('Obs')} {{ fn obs(self, o: &mut rt::Out) {{ match self {{ {' '.join(o)} }} }} }}")


def deps(t):
    s = {t["n"]} if t["c"] == "User" else set()
    for x in t["a"]:
        s |= deps(x)
    return s


def closure(k, defs):
    """the definitions that definition k needs, itself included"""
    seen, todo = set(), [k]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        for v in defs[x - 1]["vs"]:
            for f in v:
                todo += deps(f)
    return seen


def tok(g, lay):
    return f"rt::Tok<{g}, rt::{lay[g]}>"


def root_ty(root, defs, gens, lay):
    """root: the type expression of a root; gens[i]: generation of its argument i; lay[g]: layout of generation g"""
    args = []
    for i, a in enumerate(root["a"]):
        args.append(tok(gens[i], lay) if a["c"] == "P" else str(a["n"]))
    c = root["c"]
    if c == "User":
        d = defs[root["n"] - 1]
        return f"D{root['n']}<" + ", ".join((["'static"] if d["lt"] else []) + args) + ">"
    if c == "Arr":
        return f"[{args[0]}; {root['n']}]"
    return LIB[c] + "<" + ", ".join(args) + ">"


def program(pid, root, defs, steps, lay):
    """fn p<pid>: the steps, as Rust; steps: (arg, tr, over, from, to)"""
    gens = [0] * len(root["a"])
    out = [f"fn p{pid}(r: &mut rt::Rd, st: &[rt::Step]) -> rt::End {{ let v0: {root_ty(root, defs, gens, lay)} = rt::Bld::bld(r);"]
    for j, (arg, tr, over, fr, to) in enumerate(steps):
        src = root_ty(root, defs, gens, lay)
        assert gens[arg] == fr
        gens[arg] = to
        dst = root_ty(root, defs, gens, lay)
        tp = f"funcmap::TypeParam<{arg}>"
        if tr == "F":
            f = f"rt::mk::<{fr}, {to}, rt::{lay[fr]}, rt::{lay[to]}>(&st[{j}])"
            call = f"funcmap::FuncMap::<_, _, {tp}>::func_map_over::<{tp}, _>(v{j}, {f})" if over else \
                f"<{src} as funcmap::FuncMap<{tok(fr, lay)}, {tok(to, lay)}, {tp}>>::func_map(v{j}, {f})"
            out.append(f"let v{j + 1}: {dst} = {call}; rt::ret();")
        else:
            f = f"rt::mkt::<{fr}, {to}, rt::{lay[fr]}, rt::{lay[to]}>(&st[{j}])"
            call = f"funcmap::TryFuncMap::<_, _, {tp}>::try_func_map_over::<{tp}, _, _>(v{j}, {f})" if over else \
                f"<{src} as funcmap::TryFuncMap<{tok(fr, lay)}, {tok(to, lay)}, {tp}>>::try_func_map(v{j}, {f})"
            out.append(f"let v{j + 1}: {dst} = match {call} {{ Ok(v) => v, Err(e) => return rt::oops(e) }}; rt::ret();")
    out.append(f"rt::fin(v{len(steps)}) }}")
    return " ".join(out)
