"""C13: names (spec/Hygiene.tla). Scenarios without holes have to compile with the derives and work; the holes of
the design are tried one by one."""
import concurrent.futures as cf, json, os, re
from common import *
import e1, e4


def generate(mode, n, seed):
    out = tlc_ok(tlc("GenHygiene", envd=dict(MODE=mode, NITEMS=n, GENSEED=seed), workers=1), "GenHygiene")
    return [e4.Scenario(json.loads(x)) for x in tlc_lines(out, "ITEM")], tlc_stats(out)


def compile_run(scs, libs, edition, renamed, tag, derived=True, do_run=True, limit=150):
    """{id: None or what goes wrong}"""
    try:
        return compile_run_(scs, libs, edition, renamed, tag, derived, do_run, limit)
    except TimeOut:
        if len(scs) == 1:
            return {scs[0].id: "the compiler does not come to an end"}
    res = {}
    for s in scs:
        res.update(compile_run([s], libs, edition, renamed, f"{tag}_{s.id}", derived, do_run, 25))
        if str(res[s.id]).startswith("the compiler does not"):
            break
    return res


def compile_run_(scs, libs, edition, renamed, tag, derived, do_run, limit):
    res = {}
    left = list(scs)
    for attempt in range(30):
        if not left:
            break
        src, owner = e4.source(left, edition, renamed, derived)
        f = os.path.join(sub("e4"), f"{tag}.rs")
        open(f, "w").write(src)
        out = f[:-3]
        ok, diags, p = rustc(f, libs, out=out, edition=edition, externs=("funcmap",), metadata=not do_run, timeout=limit)
        if ok:
            if do_run:
                q = run([out], timeout=120)
                said = dict(reversed(l.split()) for l in q.stdout.splitlines() if l.startswith(("OK ", "BAD ")))
                for s in left:
                    r = said.get(str(s.id))
                    res[s.id] = None if r == "OK" else f"the mapped value is wrong or the program ended: {q.stderr[-600:]}"
            else:
                for s in left:
                    res[s.id] = None
            return res
        bad = {}
        for d in diags:
            for l in primary_lines(d) or span_lines(d):
                if l < len(owner) and owner[l]:
                    bad.setdefault(owner[l].id, d.get("rendered") or d["message"])
        if not bad:
            raise ToolError(f"cannot attribute the errors of {f}: " + (diags[0].get("rendered", "") if diags else p.stderr)[:1500])
        for k, m in bad.items():
            res[k] = m
        left = [s for s in left if s.id not in bad]
    else:
        raise ToolError(f"too many rounds for {tag}")
    return res


def short(msg):
    """the message of a diagnostic without the long source line"""
    return "\n".join(l[:200] for l in msg.splitlines()[:4])


def trial(scs, libs, edition, renamed, tag):
    """Compiles and runs; leaves out what is malformed without the derives as well."""
    res = compile_run(scs, libs, edition, renamed, tag)
    bad = [s for s in scs if res.get(s.id)]
    malformed = set()
    if bad:
        plain = compile_run(bad, libs, edition, renamed, tag + "_plain", derived=False, do_run=False)
        malformed = {k for k, v in plain.items() if v}
        for k in sorted(malformed)[:1]:
            say(f"malformed scenario {k}: {short(plain[k])}")
    return res, malformed


def groups(scs, size):
    by = {}
    for s in scs:
        renamed = s.sc["spell"] % 4 == 0 and s.sc["edition"] != "2015"
        by.setdefault((s.sc["edition"], renamed), []).append(s)
    res = []
    for k, v in sorted(by.items()):
        for i in range(0, len(v), size):
            res.append((k, v[i:i + size]))
    return res


def one(rep, libs, n, seed, known):
    scs, st = generate("random", n, seed)
    by = {s.id: s for s in scs}
    jobs = groups(scs, 60)
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = [ex.submit(trial, v, libs, k[0], k[1], f"g{seed}_{i}") for i, (k, v) in enumerate(jobs)]
        outs = [f.result() for f in futs]
    nbad, nmal = 0, 0
    for res, mal in outs:
        nmal += len(mal)
        for k, why in sorted(res.items()):
            if why is None or k in mal:
                continue
            nbad += 1
            src = by[k].module()
            if nbad > 20:
                continue
            rep.violation(f"e4 {src}", f"a declaration does not work because of names in it or around it: {short(why)}\n  source ({by[k].sc['edition']}): {src[:3000]}",
                          {"engine": "e4check", "params": dict(n=n, seed=seed), "id": k, "source": src, "why": why[:4000]})
    if nmal * 5 > len(scs):
        raise ToolError("too many malformed scenarios")
    mid = scs[len(scs) // 2]
    rep.add(scenarios=len(scs) - nmal, scenarios_malformed=nmal, implementations=sum(len(s.sc["derives"]) * sum(p["sel"] for p in s.sc["ps"]) for s in scs),
            states=st[1], transitions=st[0], traces_validated_against_impl=len(scs) - nmal, samples=[{"scenario": mid.module()[:1500], "generated_names": mid.got}])
    say(f"seed {seed}: {len(scs)} scenarios, {nbad} fail, {nmal} malformed")


def holes(rep, libs):
    """The model captures a name in each of these; where the crate does, too, it is a finding."""
    scs, st = generate("holes", 0, 1)
    for s in scs:
        if not s.hole:
            raise ToolError(f"hole {s.id} is none in the model")
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = [(s, ex.submit(trial, [s], libs, s.sc["edition"], False, f"h{s.id}")) for s in scs]
        for s, f in futs:
            res, mal = f.result()
            if mal:
                raise ToolError(f"hole {s.id} is malformed")
            if res[s.id]:
                env = " ".join(f"{e['k']} {e['n']};" for e in s.sc["env"])
                d = " ".join(s.item().split())
                rep.violation(f"e4 hole {env} {d}", f"{env} {d}: {short(res[s.id])}",
                              {"engine": "e4check", "params": {"holes": True}, "id": s.id, "source": s.module()})
    rep.add(holes_tried=len(scs))


def check(rep):
    rep.assumptions = ["names are those of the scenarios of spec/GenHygiene.tla; names __FUNCMAP_* coming out of macros are excluded",
                       "recursive types are excluded (documented as unsupported)"]
    q = rep.tier == "quick"
    design = model("MCHygiene", "no name is captured outside of the holes, generated names are fresh", workers=3)
    libs = e1.build_rt()
    holes(rep, libs)
    for k in range(1 if q else 25):
        one(rep, libs, 400 if q else 900, rep.seed + 1000 * k, False)
        if rep.violations:
            break
    st = design.result()
    rep.add(states=st[0], transitions=st[1])


def replay(r):
    libs = e1.build_rt()
    if r["params"].get("holes"):
        scs, _ = generate("holes", 0, 1)
    else:
        scs, _ = generate("random", r["params"]["n"], r["params"]["seed"])
    s = [s for s in scs if s.id == r["id"]][0]
    res, mal = trial([s], libs, s.sc["edition"], s.sc["spell"] % 4 == 0 and s.sc["edition"] != "2015" and not r["params"].get("holes"), "replay")
    print(s.module())
    print(res[s.id])
    if res[s.id] and not mal:
        print(f"VIOLATION property={r['property']} replay={r['key'][:80]}")
        return 1
    return 0
