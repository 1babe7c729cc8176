"""C06 and C12: availability and result types (spec/Bounds.tla) against the compiler's answers for the real macros and library."""
import json
from common import *
import e1, e3, e2

WHAT = {"C06": "pos", "C12": "bnd"}


def one(rep, libs, ndefs, nper, seed):
    w, asks, st = e3.generate(WHAT[rep.prop], ndefs, nper, seed)
    got, dead, malformed = e3.compile_world(w, asks, libs, f"w{seed}_")
    wanted = {a["q"]["ty"]["n"] for a in asks if a["q"]["ty"]["c"] == "User" and a["yes"]}
    for k, err in sorted(dead.items()):
        if rep.prop == "C12" or k in wanted:
            rep.violation(f"e3 compile {w.definition(k)}", f"a declaration whose bounds can be met does not compile with the derives: {w.definition(k)}\n{err}",
                          {"engine": "e3check", "params": dict(ndefs=ndefs, nper=nper, seed=seed), "def": k})
    n = 0
    for a in asks:
        if a["id"] not in got or got[a["id"]] == a["yes"]:
            continue
        n += 1
        ty, b = w.question(a)
        need = set()

        def closure(t):
            if t["c"] == "User" and t["n"] not in need:
                need.add(t["n"])
                for v in w.defs[t["n"] - 1]["vs"]:
                    for x in v:
                        closure(x)
            for x in t["a"]:
                closure(x)
        closure(a["q"]["ty"])
        src = [w.definition(k) for k in sorted(need)]
        key = f"e3 {ty} {b}" if a["q"]["ty"]["c"] != "User" else f"e3 {''.join(src)} {ty} {b}"
        rep.violation(key, f"`{ty}: {b}` {'holds' if got[a['id']] else 'does not hold'}, but should{' not' if got[a['id']] else ''}\n  with "
                      + "".join(src)[-1500:] + f" facts {json.dumps(w.facts)}",
                      {"engine": "e3check", "params": dict(ndefs=ndefs, nper=nper, seed=seed), "ask": a})
    lost = len(asks) - len(got)
    mid = asks[len(asks) // 3]
    ty, b = w.question(mid)
    rep.add(declarations=len(w.defs), questions=len(got), answered_yes=sum(1 for a in asks if a["yes"]), questions_lost=lost, declarations_malformed=len(malformed),
            states=st[1], transitions=st[0], traces_validated_against_impl=len(got),
            samples=[{"question": f"{ty}: {b}", "predicted": mid["yes"], "compiler": got.get(mid["id"])}])
    say(f"seed {seed}: {len(w.defs)} declarations, {len(got)} questions, {n} wrong answers, {len(dead)} do not compile, {len(malformed)} malformed")
    if lost > len(asks) / 2:
        raise ToolError("most questions could not be asked: " + next(iter(dead.values()), "")[:1500])


def check(rep):
    rep.assumptions = ["bounds are built from the kinds of predicates of spec/Bounds.tla", "recursive types are excluded (documented as unsupported)"]
    libs = e1.build_rt()
    rounds = 5 if rep.tier == "quick" else 60
    for k in range(rounds):
        one(rep, libs, 40, 20, rep.seed + 1000 * k)
        if rep.violations:
            break


def replay(r):
    libs = e1.build_rt()
    p = r["params"]
    w, asks, _ = e3.generate(WHAT[r["property"]], p["ndefs"], p["nper"], p["seed"])
    got, dead, _ = e3.compile_world(w, asks, libs, "r")
    if "def" in r:
        bad = r["def"] in dead
        print(dead.get(r["def"]))
    else:
        a = r["ask"]
        bad = got.get(a["id"]) is not None and got[a["id"]] != a["yes"]
        print(w.question(a), "predicted", a["yes"], "compiler", got.get(a["id"]))
    if bad:
        print(f"VIOLATION property={r['property']} replay={r['key'][:80]}")
    return 1 if bad else 0
