"""Checks decided by E1: the mapping machine (spec/FuncMap.tla) against the real crate."""
import json, os
from common import *
import e1, render

# tags, (ndefs, nvals, sizemax, bigmax), bias
CFG = {
    "C01": (("OK", "LIB"), (44, 3, 65, 1030), ""),
    "C02": (("OK", "FAIL", "LIB"), (36, 2, 65, 1030), "multi"),
    "C03": (("FAIL", "LIB"), (36, 3, 65, 1030), ""),
    "C04": (("FAIL", "BOOM", "OK", "COLL", "LIB"), (24, 2, 33, 1030), ""),
    "C05": (("EQV", "COLL", "LIB"), (20, 3, 33, 520), ""),
    "C07": (("COMM", "LIB"), (40, 3, 65, 260), "multi"),
    "C08": (("LAW", "LIB"), (20, 3, 65, 260), ""),
    "C09": (("OK", "COLL", "LIB"), (36, 4, 65, 520), "keyed"),
}
THOROUGH_ROUNDS = 12


def design_check(rep):
    """the exhaustive check of the machine itself"""
    out = tlc_ok(tlc("MCFuncMap"), "MCFuncMap")
    gen, distinct = tlc_stats(out)
    rep.add(states=distinct, transitions=gen)
    say(f"TLC: the mapping machine keeps its invariants in all {distinct} states")


KEYED = ('"BTree', '"Hash', '"BinaryHeap')


def violated(rules, accepted, case, rec, val):
    """property -> reason, for one case"""
    res = {}
    for r in rules:
        p, why = r.split(" ", 1)
        res.setdefault(p, why)
    if "C04" in res and rec["st"] == "crash":
        if case["tag"] != "fail":
            res.setdefault("C01", "crash")
        if case["tag"] in ("eqv",):
            res.setdefault("C05", "crash")
        if case["tag"] in ("law", "id"):
            res.setdefault("C08", "crash")
        if case["tag"] == "comm":
            res.setdefault("C07", "crash")
    if not accepted and not res:
        keyed = any(x in json.dumps(val["v"]) for x in KEYED)
        p = ("C09" if keyed and any(s["kf"]["m"] != 1009 for s in case["steps"]) else "C02") if rec["st"] == "ok" else "C03" if rec["st"] == "err" else "C04"
        res[p] = "no run of the mapping machine explains the recorded execution"
    return res


def one_round(rep, ndefs, nvals, sizemax, big, seed, libs, tags, bias):
    r = e1.pipeline(ndefs, nvals, seed, sizemax, set(tags), libs=libs, label=f"e1-{seed}", bias=bias, big=big)
    prop = rep.prop
    seen = 0
    for i, rec in sorted(r["records"].items()):
        v = violated(r["bad"].get(i, []), i in r["acc"], r["cases"][i], rec, r["vals"][r["cases"][i]["val"]])
        if prop in v:
            seen += 1
            if seen <= 5:
                case = r["cases"][i]
                root = r["vals"][case["val"]]["ty"]
                need = sorted(render.closure(root["n"], r["defs"])) if root["c"] == "User" else []
                src = [render.definition(k, r["defs"][k - 1], r["defs"]) for k in need]
                txt = f"{v[prop]}; case {json.dumps(case)[:400]} of type {' '.join(src)[-600:] or json.dumps(root)}; " \
                      f"recorded {json.dumps(rec)[:400]}"
                rep.violation(f"e1 {root['c']} {v[prop]}", txt, {"engine": "e1check", "params": dict(
                    ndefs=ndefs, nvals=nvals, sizemax=sizemax, big=big, seed=seed, tags=list(tags), bias=bias), "case": i, "spec": case,
                    "value": r["vals"][case["val"]], "types": src, "recorded": rec})
    other = {}
    for i, rec in r["records"].items():
        for p in violated(r["bad"].get(i, []), i in r["acc"], r["cases"][i], rec, r["vals"][r["cases"][i]["val"]]):
            if p != prop:
                other[p] = other.get(p, 0) + 1
    if other:
        say(f"(other properties seen broken: {other})")
    ndrop = len([1 for k in r["dropped"]])
    lost = len(r["cases"]) - len(r["records"])
    if lost > 0.5 * len(r["cases"]):
        raise ToolError(f"{lost} of {len(r['cases'])} cases could not be compiled; first: " + str(next(iter(r["dropped"].values())))[:1500])
    sample = [{"case": r["cases"][i], "value": r["vals"][r["cases"][i]["val"]]["v"] if len(json.dumps(r["vals"][r["cases"][i]["val"]])) < 1500 else "...",
               "recorded": r["records"][i]} for i in sorted(r["records"])[len(r["records"]) // 2:][:1]]
    rep.add(traces_validated_against_impl=r["stats"]["traces"], groups_compared=r["stats"]["groups"],
            states=r["stats"]["states"][1], transitions=r["stats"]["states"][0],
            user_types=len(r["defs"]), programs=len(r["progs"]), cases_not_compiled=lost, samples=sample)
    return libs


def check(rep):
    tags, (ndefs, nvals, sizemax, big), bias = CFG[rep.prop]
    rep.assumptions = ["values of at most about 40 elements for nested types and 1030 for plain containers (257 for keyed ones)",
                       "element types are the tokens of the harness"]
    design_check(rep)
    libs = e1.build_rt()
    if rep.tier == "quick":
        one_round(rep, ndefs, nvals, sizemax, big, rep.seed, libs, tags, bias)
    else:
        for k in range(THOROUGH_ROUNDS):
            one_round(rep, ndefs + 16, nvals + 1, 100 if k == 0 else sizemax, big if k == 0 else 0, rep.seed + 1000 * (k + 1), libs,
                      tags if k == 0 else tuple(t for t in tags if t != "LIB") if k % 3 else tags, bias)
            if rep.violations:
                break


def replay(r):
    p = r["params"]
    res = e1.pipeline(p["ndefs"], p["nvals"], p["seed"], p["sizemax"], set(p["tags"]), bias=p["bias"], big=p["big"])
    i = r["case"]
    rec = res["records"].get(i)
    print(json.dumps({"case": res["cases"][i], "recorded": rec}, indent=1)[:4000])
    v = violated(res["bad"].get(i, []), i in res["acc"], res["cases"][i], rec, res["vals"][res["cases"][i]["val"]]) if rec else {}
    print("broken:", v)
    if r["property"] in v:
        print(f"VIOLATION property={r['property']} replay={r['key']}")
        return 1
    return 0
