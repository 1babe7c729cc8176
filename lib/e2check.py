"""C10 and C11: the derive machine (spec/Derive.tla) against the real macros."""
import json, os
from common import *
import e1, e2


def judge_drop(items, libs):
    """C14: accepted declarations with and without destructors"""
    import re
    bad = []
    items = [it for it in items if not it.case["errs"]]
    with_d, without = [it for it in items if e2.it_drop(it)], [it for it in items if not e2.it_drop(it)]
    text = e2.program(with_d)
    src = os.path.join(sub("e2"), "d.rs")
    open(src, "w").write(text + "fn main() {}\n")
    ok, diags, p = rustc(src, libs, metadata=True, externs=e2.EXTERNS)
    got = {it.id: [] for it in with_d}
    for d in diags:
        r = e2.where(d, with_d, "d.rs")
        it = e2.owner(r, with_d) if r else None
        if it:
            got[it.id].append(d["message"])
    named = 0
    for it in with_d:
        for tr in ("FuncMap", "TryFuncMap"):
            pat = re.compile(r"(?<![A-Za-z])" + tr + r"(?![a-z])[^`]*[dD]rop")
            says = any(pat.search(m) for m in got[it.id])
            named += says
            if says != (tr in it.case["conf"]):
                bad.append(("C14", "destructor", f"deriving {tr} for a type with a destructor is "
                            + (f"not refused for this reason; the compiler said {[m[:200] for m in got[it.id]]}" if not says else "refused, but it was not asked for"), it))
    answers, failed = e2.pass_b(without, libs)
    for it in without:
        if it.id in failed:
            bad.append(("C14" if "rop" in failed[it.id].split("\n")[0] else "C10", "does not compile",
                        "a declaration without a destructor of its own does not compile: " + failed[it.id], it))
    return bad, dict(declarations=len(items), declarations_with_destructor=len(with_d), conflicts_matched=named,
                     accepted_declarations_compiled=len(without) - len(failed))


def judge(items, libs):
    """[(property, key, text, item)] and counts"""
    bad = []
    got, stray, _ = e2.pass_a(items, libs)
    for d in stray:
        bad.append(("C10", "stray", "an error of the macros at no declaration: " + d["message"][:300], None))
    nerr = 0
    for it in items:
        req = {(tuple(e["loc"]), e["k"]) for e in it.case["errs"]}
        seen = set()
        for r, msg in got[it.id]:
            x = e2.explain(it, r, msg)
            if x is None:
                low = msg.lower()
                opt = any(w in low for w in ("duplicate", "unknown generic", "lifetime param", "const generic", "helper attribute", "argument", "expected path"))
                place = " ".join(it_text(it, r).split())[:120]
                bad.append(("C11" if opt else "C10", "unexpected error", f"error `{msg[:200]}` at `{place}`, where the specification has none", it))
            else:
                seen.add(x)
        nerr += len(seen)
        for loc, k in sorted(req - seen):
            if any(b[3] is it for b in bad) and k == "malformed":
                continue
            s, e = it.at[loc]
            bad.append((e2.prop_of(k), "missing error", f"no error ({k}) at `{it_text(it, (s, e))[:120]}`; the macros said {[m[:100] for _, m in got[it.id]]}", it))
    acc = [it for it in items if not it.case["errs"] and not got[it.id] and not e2.it_drop(it)]
    answers, failed = e2.pass_b(acc, libs)
    for it in acc:
        if it.id in failed:
            bad.append(("C10", "does not compile", "an accepted declaration does not compile: " + failed[it.id], it))
            continue
        for (tr, lib, n), v in sorted(answers[it.id].items()):
            want = tr in e2.TRAITS[it.it["derives"]] and n in it.case["acc"] and (lib == "funcmap2") == (it.case["cr"] == 4)
            if v != want:
                bad.append(("C11" if it.it["attrs"] else "C10", "implementation",
                            f"{tr} of {lib} for parameter {n} is {'available' if v else 'missing'}, but should {'' if want else 'not '}be", it))
    other = [(it, cr) for cr in (3, 4) for it in acc if it.id not in failed and it.case["cr"] == cr]
    for cr in (3, 4):
        lost = e2.alone([it for it, c in other if c == cr], libs, cr)
        bad += [("C11", "path", f"a declaration does not compile where the library is reached by {e2.CRATES[cr]} only: {lost[it.id]}", it)
                for it, c in other if c == cr and it.id in lost]
        if None in lost:
            bad.append(("C11", "path", f"declarations of their own crate do not compile where the library is reached by another path only: {lost[None]}", None))
    return bad, dict(declarations=len(items), errors_matched=nerr, accepted_declarations_compiled=len(acc) - len(failed), compiled_with_other_path_only=len(other),
                     availability_answers=sum(len(a) for a in answers.values()))


def it_text(it, r):
    return it.text[r[0]:r[1]]


def items_of(cases, base=0):
    items = []
    for k, c in enumerate(cases):
        c = dict(c, id=base + k)
        items.append(e2.Item(c))
    return items


def one(rep, libs, mode, mix, n, seed, depth=1, part=None):
    cases, st = e2.generate(mode, mix, n, seed, depth)
    if part:
        cases = cases[part[0]::part[1]]
    for lo in range(0, len(cases), 1200):
        items = items_of(cases[lo:lo + 1200])
        text = e2.program(items)
        for it in items:
            it.text = text
        bad, cov = (judge_drop if rep.prop == "C14" else judge)(items, libs)
        rep.add(**cov)
        other = 0
        for p, key, why, it in bad:
            if p != rep.prop:
                other += 1
                continue
            src = e2.source(it) if it else ""
            rep.violation(f"e2 {key} {json.dumps(it.it, sort_keys=True) if it else why}", f"{why}\n  for: {src[:900]}",
                          {"engine": "e2check", "cases": [it.case] if it else [], "source": src})
        if other:
            say(f"(other properties seen broken: {other})")
        mid = items[len(items) // 2]
        rep.add(samples=[{"declaration": e2.source(mid)[:600], "predicted": {"errors": mid.case["errs"], "implemented": mid.case["acc"]}}])
    rep.add(states=st[1], transitions=st[0], traces_validated_against_impl=len(cases))
    say(f"{mode} {mix} seed {seed}: {len(cases)} declarations")


PROBE = "#[derive(::funcmap::FuncMap)] pub struct U<T>(fn() -> T);"


def editions(rep, libs):
    """The message for an unsupported field type in every edition."""
    for ed in ("2015", "2018", "2021", "2024"):
        src = os.path.join(sub("e2"), f"ed{ed}.rs")
        open(src, "w").write(("extern crate funcmap;\n" if ed == "2015" else "") + PROBE + "\nfn main() {}\n")
        ok, diags, p = rustc(src, libs, edition=ed, metadata=True, externs=("funcmap",))
        if ok or not any("mapping over function type is not supported" in d["message"] for d in diags):
            rep.violation(f"e2 edition {ed} {PROBE}", f"in edition {ed}, the error for `{PROBE}` is {[d['message'] for d in diags]}",
                          {"engine": "e2check", "cases": [], "source": PROBE})
    rep.add(editions=4)


def prepare():
    libs = e1.build_rt()
    e2.build_second(libs)
    return libs


def check(rep):
    rep.assumptions = ["field types are built from the constructors of spec/Derive.tla", "macros nested in other types do not use the parameters"]
    design = model("MCDerive", "the derive machine reaches the outcome of the rules")
    libs = prepare()
    if rep.prop == "C10":
        editions(rep, libs)
        one(rep, libs, "types", "c10", 0, rep.seed)
        one(rep, libs, "types", "c10", 0, rep.seed, 2, (rep.seed % 12, 12))
        one(rep, libs, "random", "c10", 700, rep.seed)
    else:
        for k in range(2):
            one(rep, libs, "random", rep.prop.lower(), 600, rep.seed + 50 * k)
    st = design.result()
    rep.add(states=st[0], transitions=st[1])
    if rep.tier != "quick":
        if rep.prop == "C10":
            for k in range(4):
                one(rep, libs, "types", "c10", 0, rep.seed + k, 2, (k, 4))
        for k in range(8):
            if rep.violations:
                return
            one(rep, libs, "random", rep.prop.lower(), 1000, rep.seed + 100 + k)


def replay(r):
    libs = prepare()
    items = items_of(r["cases"])
    text = e2.program(items)
    for it in items:
        it.text = text
    bad, _ = (judge_drop if r["property"] == "C14" else judge)(items, libs)
    for p, key, why, it in bad:
        print(p, key, why)
    if any(p == r["property"] for p, *_ in bad):
        print(f"VIOLATION property={r['property']} replay={r['key'][:60]}")
        return 1
    return 0
