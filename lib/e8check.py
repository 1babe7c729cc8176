"""C18: what the compiler infers at calls (spec/Infer.tla), for the real macros and library."""
import json, os
from common import *
import e1, e3

HELP = """pub fn any<X>() -> X { loop {} }
pub fn expect<X>(_: X) {}
pub fn via<X, A, B, P, G: FnMut(A) -> B>(x: X, g: G) -> X::Output where P: FuncMarker<P>, X: FuncMap<A, B, P> { x.func_map(g) }
pub fn tvia<X, A, B, P, D, G: FnMut(A) -> Result<B, D>>(x: X, g: G) -> Result<X::Output, D> where P: FuncMarker<P>, X: TryFuncMap<A, B, P> { x.try_func_map(g) }
pub fn bound<X: FuncMap<A, B>, A, B, G: FnMut(A) -> B>(x: X, g: G) -> X::Output { x.func_map(g) }
pub fn tbound<X: TryFuncMap<A, B>, A, B, D, G: FnMut(A) -> Result<B, D>>(x: X, g: G) -> Result<X::Output, D> { x.try_func_map(g) }
pub fn need<Q: FuncMarker<P>, P>() {}
pub struct Er;
pub trait Go { type To; fn go(self) -> Self::To; }
"""
# what nobody outside of the crate can do
SEALED = ["pub struct My; impl FuncMarker<My> for My {}", "pub struct My; impl FuncMarker<TypeParam<0>> for My {}", "pub struct My; impl FuncMarker<My> for TypeParam<0> {}",
          "pub struct My; impl funcmap::private::Sealed<My> for My {} impl FuncMarker<My> for My {}",
          "pub struct My; pub struct W<T>(T); impl<A, B> FuncMap<A, B, My> for W<A> { type Output = W<B>; fn func_map<F: FnMut(A) -> B>(self, mut f: F) -> W<B> { W(f(self.0)) } }",
          "pub struct My; pub struct W<T>(T); impl<A, B> TryFuncMap<A, B, My> for W<A> { type Output = W<B>; fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, mut f: F) -> Result<W<B>, E> { Ok(W(f(self.0)?)) } }",
          "pub fn f() { need::<u8, u8>() }", "pub fn f() { need::<(), ()>() }", "pub fn f<X>() { need::<X, X>() }", "pub fn f() { need::<&TypeParam<0>, &TypeParam<0>>() }",
          "pub fn f() { need::<TypeParam<0>, _>(); need::<_, TypeParam<0>>() }", "pub fn f() -> TypeParam<0> { TypeParam }", "pub fn f() -> TypeParam<0> { TypeParam {} }"]
OPEN = ["pub fn f() { need::<TypeParam<0>, _>(); need::<TypeParam<7>, _>() }", "pub fn f<const N: usize>() { need::<TypeParam<N>, TypeParam<N>>() }",
        "pub fn f(x: TypeParam<3>) -> String { match x {} }",
        "pub struct W<T>(T); impl<A, B> FuncMap<A, B, TypeParam<3>> for W<A> { type Output = W<B>; fn func_map<F: FnMut(A) -> B>(self, mut f: F) -> W<B> { W(f(self.0)) } } pub fn f() -> W<u8> { W(1u16).func_map(|_| 1u8) }"]


def step(c):
    """a call on v"""
    call, t, how = c["call"], "try_" if c["try"] else "", c["how"]
    if call["fun"] == "clos":
        f = "|e| Ok::<_, Er>(e.go())" if c["try"] else "|e| e.go()"
    else:
        f = f"{'t' if c['try'] else ''}f_{call['src']}_{call['dst']}"
    any_ = "_, _" if c["try"] else "_"
    tr = "TryFuncMap" if c["try"] else "FuncMap"
    x = {"plain": f"v.{t}func_map({f})", "via": f"{'t' if c['try'] else ''}via(v, {f})", "ufcs": f"{tr}::{t}func_map(v, {f})",
         "over": f"v.{t}func_map_over::<TypeParam<{call['pos'] - 1}>, {any_}>({f})", "ufcspos": f"{tr}::<_, _, TypeParam<{call['pos'] - 1}>>::{t}func_map(v, {f})",
         "bound": f"{'t' if c['try'] else ''}bound(v, {f})", "hole": f"v.{t}func_map_over::<_, {any_}>({f})"}[how]
    return f"let v = {x}" + (".ok().unwrap()" if c["try"] else "") + "; "


def program(w, p):
    g = lambda t: w.ty(t, [], "'static")
    return f"pub fn p{p['id']}() {{ let v: {g(p['ty'])} = any(); " + "".join(map(step, p["calls"])) + (f"expect::<{g(p['out'])}>(v); " if p["yes"] else "") + "}"


def generate(ndefs, nper, nlib, seed):
    out = tlc_ok(tlc("GenInfer", envd=dict(NDEFS=ndefs, NPER=nper, GENSEED=seed, WHAT="pos", NLIB=nlib), workers=1), "GenInfer")
    world = json.loads(tlc_lines(out, "WORLD")[0])
    return e3.World(world), world, list({p["id"]: p for p in map(json.loads, tlc_lines(out, "PROG"))}.values()), \
        [json.loads(x) for x in tlc_lines(out, "MARK")], tlc_stats(out)


def lost(w, libs, tag):
    """declarations that do not compile, with those that use them"""
    _, dead, malformed = e3.compile_world(w, [], libs, tag)

    def uses(t):
        return ({t["n"]} if t["c"] == "User" else set()).union(*[uses(x) for x in t["a"]])
    res = set(dead) | set(malformed)
    while True:
        more = {k for k, d in enumerate(w.defs, 1) if k not in res and any(uses(t) & res for v in d["vs"] for t in v)}
        if not more:
            return res, dead
        res |= more


def refused(pre, programs, libs, name):
    """id -> error, for the programs (id -> text) that the compiler refuses"""
    lines, at = pre.splitlines(), {}
    for i, text in programs.items():
        lines.append(text)
        at[len(lines)] = i
    src = os.path.join(sub("e8"), name + ".rs")
    open(src, "w").write("\n".join(lines) + "\n")
    ok, diags, p = rustc(src, libs, externs=("funcmap",), metadata=True, extra=("--crate-type=lib",))
    res = {}
    for d in diags:
        hit = [at[l] for l in primary_lines(d) if l in at]
        if hit:
            res.setdefault(hit[0], d.get("rendered", d["message"])[:1200])
        elif primary_lines(d):
            raise ToolError("an error outside of the calls: " + d.get("rendered", d["message"])[:1500])
    if not ok and not res:
        raise ToolError("the calls cannot be compiled: " + p.stderr[-1500:])
    return res


def one(rep, libs, ndefs, nper, nlib, seed):
    w, world, progs, marks, st = generate(ndefs, nper, nlib, seed)
    go = world["go"]
    args = [f"E{e}" for e in range(len(go) - len(world["compounds"]))] + [w.ty(t, [], "'static") for t in world["compounds"]]
    params = dict(ndefs=ndefs, nper=nper, nlib=nlib, seed=seed)
    gone, dead = lost(w, libs, f"i{seed}_")
    pre = w.prelude().replace("TypeParam};", "TypeParam, FuncMarker};", 1) + "".join(w.definition(k) for k in range(1, len(w.defs) + 1) if k not in gone) + HELP \
        + "".join(f"impl Go for {args[a]} {{ type To = E{b}; fn go(self) -> E{b} {{ any() }} }}\n" for a, b in enumerate(go)) \
        + "".join(f"pub fn f_{a}_{b}(_: {t}) -> E{b} {{ any() }} pub fn tf_{a}_{b}(_: {t}) -> Result<E{b}, Er> {{ any() }}\n"
                  for a, t in enumerate(args) for b in range(len(go) - len(world["compounds"])))
    live = [p for p in progs if not (p["ty"]["c"] == "User" and p["ty"]["n"] in gone)]
    if len(live) < len(progs) / 2:
        raise ToolError("most calls are on declarations that do not compile: " + next(iter(dead.values()), "")[:1500])
    text = {p["id"]: program(w, p) for p in live}
    yes = {p["id"]: text[p["id"]] for p in live if p["yes"]}
    yes.update({f"m{m['q']}{m['p']}": f"pub fn m{m['q']}{m['p']}() {{ need::<TypeParam<{m['q']}>, TypeParam<{m['p']}>>() }}" for m in marks if m["yes"]})
    yes.update({f"o{k}": f"pub mod o{k} {{ use super::*; {t} }}" for k, t in enumerate(OPEN)})
    no = {p["id"]: text[p["id"]] for p in live if not p["yes"]}
    no.update({f"m{m['q']}{m['p']}": f"pub fn m{m['q']}{m['p']}() {{ need::<TypeParam<{m['q']}>, TypeParam<{m['p']}>>() }}" for m in marks if not m["yes"]})
    sealed = {f"s{k}": f"pub mod s{k} {{ use super::*; {t} }}" for k, t in enumerate(SEALED)}

    def about(i):
        p = next((p for p in progs if p["id"] == i), None)
        return w.definition(p["ty"]["n"]) if p and p["ty"]["c"] == "User" else ""
    for i, err in refused(pre, yes, libs, f"yes{seed}").items():
        rep.violation(f"e8 {yes[i]} {about(i)}", f"what has to be inferred is not: {yes[i]}\n  with {about(i)}  {err}", {"engine": "e8check", "params": params, "prog": i, "want": True})
    got = refused(pre, no, libs, f"no{seed}")
    with_alone = {i: t for i, t in no.items() if i not in got}
    if seed % 1000 == rep.seed % 1000 and seed == rep.seed:
        no.update(sealed)
        with_alone.update(sealed)
    for i, t in list(with_alone.items())[:40]:      # refused when on its own?
        if not refused(pre, {i: t}, libs, "alone"):
            rep.violation(f"e8 {t} {about(i)}", f"something is accepted that is not determined (or not allowed): {t}\n  with {about(i)}", {"engine": "e8check", "params": params, "prog": i, "want": False})
    mid = live[len(live) // 3]
    rep.add(calls=sum(len(p["calls"]) for p in live), programs=len(yes) + len(no), accepted=len(yes), ambiguous=sum(p["why"] == "ambiguous" for p in live), declarations=len(w.defs) - len(gone),
            states=st[1], transitions=st[0], traces_validated_against_impl=len(yes) + len(no), samples=[{"program": text[mid["id"]], "predicted": mid["why"]}])
    say(f"seed {seed}: {len(yes)} programs to be accepted, {len(no)} to be refused, {len(gone)} declarations left out")


def check(rep):
    rep.assumptions = ["values of ground types; functions are items or closures without written types", "closures are not decided where the bounds leave fewer implementations than there are"]
    design = model("MCInfer", "every order of inference gives the answer of the rules")
    libs = e1.build_rt()
    for k in range(4 if rep.tier == "quick" else 60):
        one(rep, libs, 40, 20, 300, rep.seed + 1000 * k)
        if rep.violations:
            break
    st = design.result()
    rep.add(states=st[0], transitions=st[1])


def replay(r):
    from driver import Report
    rep = Report(r["property"], "quick", r["params"]["seed"])
    one(rep, e1.build_rt(), **r["params"])
    hit = [t for k, t, _ in rep.violations if k == r["key"]]
    print("\n".join(hit)[:3000])
    if hit:
        print(f"VIOLATION property={r['property']} replay={r['key'][:60]}")
        return 1
    return 0
