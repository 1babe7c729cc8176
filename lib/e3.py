"""Worlds of spec/Bounds.tla as Rust source, and its questions put to the compiler."""
import json, os
from common import *
import render

LITS = ["u8", "String", "fn(u8) -> u8"]
EXTRA_LIB = dict(render.LIB)
TRAIT = {"m0": "M0", "m1": "M1", "m2": "M2", "copy": "Copy", "ord": "Ord", "hash": "std::hash::Hash", "tr": "Tr"}
PNAMES = render.PNAMES


def elem(n):
    return "str" if n == 100 else "[u8]" if n == 101 else f"E{n}"


class World:
    def __init__(self, w):
        self.facts, self.defs = w["facts"], w["defs"]

    # ---- types
    def lts(self, d):
        return ["'a", "'b", "'long", "'de"][:d["nlt"]]

    def names(self, d):
        pn = PNAMES[d["spell"] % len(PNAMES)]
        out, ti = [], 0
        for i, p in enumerate(d["ps"]):
            if p["k"] == "ty":
                out.append(pn[ti])
                ti += 1
            else:
                out.append(["N", "M", "K", "L"][i])
        return out

    def ty(self, t, ps, lt, sp=render.Spell(0, True)):
        c, a, n = t["c"], t["a"], t["n"]
        go = lambda x: self.ty(x, ps, lt, sp)
        if c == "V":
            return ps[n]
        if c == "E":
            return elem(n)
        if c == "L":
            return "S2" if n == 20 else LITS[n]
        if c == "K":
            return str(n) if n >= 0 else ps[-1 - n]
        if c == "Tup":
            return "(" + ", ".join(map(go, a)) + ("," if len(a) == 1 else "") + ")"
        if c == "Paren":
            return "(" + go(a[0]) + ")"
        if c == "Arr":
            return f"[{go(a[0])}; " + (str(n) if n >= 0 else ps[-1 - n]) + "]"
        if c == "Ptr":
            return f"*const {go(a[0])}"
        if c in ("Fn", "Slice", "Dyn", "Ref"):
            return {"Fn": "fn({}) -> u8", "Slice": "[{}]", "Dyn": "dyn DP<{}>", "Ref": "&'x {}"}[c].format(go(a[0]))
        if c == "User":
            args = [lt] * len(self.lts(self.defs[n - 1])) + [go(x) for x in a]
            return f"D{n}<" + ", ".join(args) + ">"
        return sp.open(c, len(a)) + ", ".join(map(go, a)) + ">"

    def bound(self, p, ps, lt, tag):
        """(subject, bound) of a predicate"""
        t = self.ty(p["ty"], ps, lt)
        k = p["k"]
        if k == "self":
            return ("for<'x> &'x Self" if p["pl"] == 5 else "Self"), f"Slf{tag}"
        if k == "sarg":
            return t, f"Arg{tag}<Self>"
        if k == "tr":
            return t, TRAIT[p["t"]]
        if k in ("trp", "hrp"):
            hr, b = "", f"TrP<{self.ty(p['u'], ps, lt)}>" if k == "trp" else f"RelL<'x, {self.ty(p['u'], ps, lt)}>"
            if k == "hrp" or p["u"]["c"] == "Ref":
                hr = "for<'x> "
            return (hr + t, b) if p["pl"] == 3 else (t, hr + b)
        if k == "fnp":
            return t, f"Fn({self.ty(p['u'], ps, lt)}) -> u8"
        if k == "as":
            return t, f"Tr<As = {self.ty(p['u'], ps, lt)}>"
        if k == "astr":
            return (f"{t}::As" if p["pl"] % 3 == 0 and p["ty"]["c"] == "V" else f"<{t} as Tr>::As"), TRAIT[p["t"]]
        if k == "ref":
            return f"for<'x> &'x {t}", TRAIT[p["t"]]
        if k == "life":
            return t, "'static" if p["t"] == "static" else lt

    def definition(self, k, derive=True):
        d = self.defs[k - 1]
        ps = self.names(d)
        lt = "'a" if d["lt"] else "'static"
        inline = {i: [] for i in range(len(ps))}
        wh = []
        for j, p in enumerate(d["preds"]):
            s, b = self.bound(p, ps, lt, f"{k}_{j}")
            if p["ty"]["c"] == "V" and p["k"] in ("tr", "trp", "hrp", "fnp", "as", "life", "sarg") and p["pl"] % 2 == 0:
                inline[p["ty"]["n"]].append(b)
            else:
                wh.append((s, b))
        seen_default = all(True for _ in ps)
        lts = self.lts(d)
        gs = [l + "".join(x) for l, x in zip(lts, [[(": " if n == 0 else " + ") + b for n, b in enumerate(lts[o["b"]] for o in d["outs"] if o["inl"] and lts[o["a"]] == l)]
                                                   for l in lts])]
        igs = list(gs)
        wh_lt = {}
        for o in d["outs"]:
            if not o["inl"]:
                wh_lt.setdefault(lts[o["a"]], []).append(lts[o["b"]])
        # defaults are allowed for the last parameters
        ndef = d["spell"] % 3
        for i, p in enumerate(d["ps"]):
            last = i >= len(ps) - ndef and not d["preds"]
            if p["k"] == "const":
                igs.append(f"const {ps[i]}: usize")
                gs.append(igs[-1] + (" = 7" if last else ""))
            else:
                bs = list(dict.fromkeys(inline[i]))
                if p["relaxed"]:
                    if d["spell"] % 2:
                        wh.append(((ps[i] if d["spell"] // 2 % 3 else "r#" + ps[i]), "?Sized"))
                    else:
                        bs.insert(d["spell"] % (len(bs) + 1), "?Sized")
                own = [b for b in bs if not b.startswith("Arg")]
                igs.append(ps[i] + (": " + " + ".join(own) if own else ""))
                gs.append(ps[i] + (": " + " + ".join(bs) if bs else "") + (" = u16" if last else ""))
        if d["spell"] // 5 % 2:      # one predicate per bound, or gathered
            groups = [(s, [b]) for s, b in wh]
        else:
            g = {}
            for s, b in wh:
                g.setdefault(s, [])
                if b not in g[s]:
                    g[s].append(b)
            groups = list(g.items())
        # the parameters in the where clause may come out of a macro fragment
        frag = [ps[i] for i, p in enumerate(d["ps"]) if p["k"] == "ty"] if d["spell"] // 7 % 4 == 0 else []
        sub_ = lambda s: f"$p{frag.index(s)}" if s in frag else s
        clauses = [f"{sub_(s)}: {' + '.join(b)}" for s, b in groups]
        for n, (l, bs) in enumerate(wh_lt.items()):
            clauses.insert(d["spell"] // (n + 1) % (len(clauses) + 1), f"{l}: {' + '.join(bs)}")
        where = " where " + ", ".join(clauses) if clauses else ""
        plain = lambda bs: [b for b in bs if not b.startswith(("Slf", "Arg"))]
        this = f"D{k}<" + ", ".join(self.lts(d) + ps) + ">"
        conds = [f"{ps[p['ty']['n']]}: {TRAIT[p['t']]}" for p in d["preds"] if p["k"] in ("self", "sarg")]
        iwhere = " where " + ", ".join([f"{s}: {' + '.join(plain(b))}" for s, b in groups if plain(b)] + conds)
        extra = ""
        for j, p in enumerate(d["preds"]):
            for kind, tr, on in (("self", f"Slf{k}_{j}", ("&'x " if p["pl"] == 5 else "") + this), ("sarg", f"Arg{k}_{j}", None)):
                if p["k"] == kind:
                    on = on or ps[p["ty"]["n"]]
                    g = (["'x"] if on.startswith("&") else []) + igs
                    extra += f" pub trait {tr}{'<X: ?Sized>' if kind == 'sarg' else ''} {{}} impl<{', '.join(g)}> {tr}{f'<{this}>' if kind == 'sarg' else ''} for {on}{iwhere} {{}}"

        def finish(text):
            if "$p" in text:
                text = f"macro_rules! mk{k} {{ ({', '.join(f'$p{x}:ty' for x in range(len(frag)))}) => {{ {text} }} }} mk{k}!({', '.join(frag)});"
            return text + extra + "\n"
        attrs = "#[derive(FuncMap, TryFuncMap)]" if derive else ""
        if d["named"] and derive:
            attrs += " #[funcmap(params(" + ", ".join(ps[n] for n in d["sel"]) + "))]"
        head = f"{attrs} pub {'enum' if d['enum'] else 'struct'} D{k}<{', '.join(gs)}>"
        extra_lt = d["lt"]

        def body(v, vis):
            sp = render.Spell(d["spell"] + v)
            fs = [self.ty(t, ps, lt, sp) for t in d["vs"][v]]
            st = d["styles"][v]
            names = render.field_names({"names": d["spell"]}, v, len(fs))
            if extra_lt and v == 0:
                fs = ["&" + " &".join(self.lts(d)) + " u8"] + fs
                names = ["lt_"] + names
                st = "tuple" if st == "unit" else st
            if st == "unit":
                return "", st
            if st == "tuple":
                return "(" + ", ".join(vis + f for f in fs) + ")", st
            return " { " + ", ".join(f"{vis}{n}: {f}" for n, f in zip(names, fs)) + " }", st
        if d["enum"]:
            return finish(head + where + " { " + ", ".join(f"V{v}" + body(v, "")[0] for v in range(len(d["vs"]))) + " }")
        b, st = body(0, "pub ")
        if st == "named":
            return finish(head + where + b)
        return finish(head + b + where + ";")

    def prelude(self):
        f = self.facts
        o = ["#![allow(warnings)]", "use funcmap::{FuncMap, TryFuncMap, TypeParam};", "use std::cmp::Ordering;",
             "pub trait M0 {} pub trait M1 {} pub trait M2 {} pub trait Tr { type As; } pub trait TrP<X: ?Sized> {} pub trait RelL<'l, X: ?Sized> {} pub trait DP<X> {}",
             "pub type S2 = std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>;",
             "pub trait Absent { const HAS: bool = false; }",
             render.gat_mod("".join(f"<crate::gat::{c} as crate::gat::G{render.ARITY.get(c, 1)}>" for c in render.LIB)).strip()]
        for n, ts in enumerate(f["e"]):
            e = f"E{n}"
            o.append(f"pub struct {e}(u8);")
            for t in ts:
                if t in ("m0", "m1", "m2"):
                    o.append(f"impl {TRAIT[t]} for {e} {{}}")
                elif t == "copy":
                    o.append(f"impl Clone for {e} {{ fn clone(&self) -> Self {{ {e}(self.0) }} }} impl Copy for {e} {{}}")
                elif t == "ord":
                    o.append(f"impl Ord for {e} {{ fn cmp(&self, o: &Self) -> Ordering {{ self.0.cmp(&o.0) }} }} "
                             f"impl PartialOrd for {e} {{ fn partial_cmp(&self, o: &Self) -> Option<Ordering> {{ Some(self.0.cmp(&o.0)) }} }}")
                elif t == "hash":
                    o.append(f"impl std::hash::Hash for {e} {{ fn hash<H: std::hash::Hasher>(&self, h: &mut H) {{ self.0.hash(h) }} }}")
                elif t == "tr":
                    o.append(f"impl Tr for {e} {{ type As = E{f['as'][n]}; }}")
            if "ord" in ts or "hash" in ts:
                o.append(f"impl PartialEq for {e} {{ fn eq(&self, o: &Self) -> bool {{ self.0 == o.0 }} }} impl Eq for {e} {{}}")
            for t in f["vec"][n]:
                o.append(f"impl {TRAIT[t]} for Vec<{e}> {{}}")
            for t in f["arr"][n]:
                o.append(f"impl {TRAIT[t]} for [{e}; 2] {{}}")
                o.append(f"impl {TRAIT[t]} for [{e}; 3] {{}}")
            for t in f["sl"][n]:
                o.append(f"impl {TRAIT[t]} for [{e}] {{}}")
            for y in f["tup"][n]:
                o.append(f"impl M0 for ({e}, E{y}) {{}} impl M1 for ({e}, E{y}) {{}} impl M2 for ({e}, E{y}) {{}}")
            for t in f["rf"][n]:
                o.append(f"impl<'x> {TRAIT[t]} for &'x {e} {{}}")
            for y in f["trp"][n]:
                o.append(f"impl TrP<E{y}> for {e} {{}}")
            for y in f["trpv"][n]:
                o.append(f"impl TrP<Vec<E{y}>> for {e} {{}}")
            for y in f["trpr"][n]:
                o.append(f"impl<'x> TrP<&'x E{y}> for {e} {{}}")
            for y in f["trpd"][n]:
                o.append(f"impl TrP<dyn DP<E{y}>> for {e} {{}}")
            for y in f["hrp"][n]:
                o.append(f"impl<'x> RelL<'x, E{y}> for {e} {{}}")
        return "\n".join(o) + "\n"

    def question(self, a):
        q = a["q"]
        g = lambda t: self.ty(t, [], "'static")
        par = "" if q["omit"] else f", TypeParam<{q['x'] - 1}>"
        out = f", Output = {g(a['out'])}" if q["out"] else ""
        return g(q["ty"]), f"{q['tr']}<{g(q['src'])}, {g(q['dst'])}{par}{out}>"


def generate(what, ndefs, nper, seed):
    out = tlc_ok(tlc("GenBounds", envd=dict(NDEFS=ndefs, NPER=nper, GENSEED=seed, WHAT=what), workers=1), "GenBounds")
    return World(json.loads(tlc_lines(out, "WORLD")[0])), [json.loads(x) for x in tlc_lines(out, "ASK")], tlc_stats(out)


def bare(w, dir, tag, libs):
    """The declarations that do not compile even without the derives."""
    lines, at = w.prelude().splitlines(), {}
    for k in range(1, len(w.defs) + 1):
        at[len(lines) + 1] = k
        lines.append(w.definition(k, derive=False).rstrip("\n"))
    src = os.path.join(dir, f"{tag}bare.rs")
    open(src, "w").write("\n".join(lines) + "\nfn main() {}\n")
    ok, diags, _ = rustc(src, libs, externs=("funcmap",), metadata=True)
    return set() if ok else {at[l] for d in diags for l in primary_lines(d) if l in at}


def compile_world(w, asks, libs, tag, extra=()):
    """Returns (id -> answer, definition number -> error, malformed declarations). Definitions that do not compile are left out, with
    what uses them; the malformed ones are those that do not even compile without the derives."""
    dead, answers, malformed = {}, {}, None

    def uses(t):
        return ({t["n"]} if t["c"] == "User" else set()).union(*[uses(x) for x in t["a"]]) if t["a"] or t["c"] == "User" else set()
    deps = {k: set().union(*[uses(t) for v in d["vs"] for t in v]) for k, d in enumerate(w.defs, 1)}
    dead_all = set()
    for attempt in range(10):
        live = [k for k in deps if k not in dead_all]
        lines = w.prelude().splitlines()
        at = {}
        for k in live:
            at[len(lines) + 1] = k
            lines.append(w.definition(k).rstrip("\n"))
        lines.append("fn main() {")
        qs = [a for a in asks if not (uses(a["q"]["ty"]) & dead_all) and a["id"] not in answers.get("bad", {})]
        qat = {}
        for a in qs:
            ty, b = w.question(a)
            qat[len(lines) + 1] = a["id"]
            lines.append(f"  {{ struct P<X: ?Sized>(std::marker::PhantomData<X>); impl<X: ?Sized> Absent for P<X> {{}} impl<X: {b}> P<X> {{ const HAS: bool = true; }} "
                         f"println!(\"{a['id']} {{}}\", <P<{ty}>>::HAS); }}")
        lines.append("}")
        src = os.path.join(sub("e3"), f"{tag}{attempt}.rs")
        open(src, "w").write("\n".join(lines) + "\n")
        ok, diags, p = rustc(src, libs, out=src[:-3], externs=("funcmap",), extra=("-Copt-level=0", *extra))
        if ok:
            r = run([src[:-3]], timeout=60)
            got = {}
            for l in r.stdout.splitlines():
                i, v = l.split()
                got[int(i)] = v == "true"
            return got, {k: v for k, v in dead.items() if k not in (malformed or ())}, malformed or set()
        new, badq = {}, {}
        for d in diags:
            ls = primary_lines(d)
            hit = [at[l] for l in ls if l in at]
            if hit:
                new.setdefault(hit[0], d.get("rendered", d["message"])[:1500])
            else:
                hq = [qat[l] for l in ls if l in qat]
                if hq:
                    badq.setdefault(hq[0], d.get("rendered", d["message"])[:1500])
        if not new:
            raise ToolError("questions cannot be asked: " + "\n".join(list(badq.values())[:2] or [d.get("rendered", d["message"]) for d in diags][:3])[:3000])
        if malformed is None:
            malformed = bare(w, sub("e3"), tag, libs)
            dead_all |= malformed
        dead.update(new)
        dead_all |= set(new)
        while True:
            more = {k for k in deps if k not in dead_all and deps[k] & dead_all}
            if not more:
                break
            dead_all |= more
    raise ToolError("too many rounds of compile errors")
