"""E1: mapping cases generated by TLC (GenMap), run on the real crate, judged by TLC (TraceMap)."""
import json, os, subprocess, concurrent.futures as cf
from common import *
import render


def generate(ndefs, nvals, seed, sizemax, tags, bias="", big=0):
    e = {"NDEFS": ndefs, "NVALS": nvals, "GENSEED": seed, "SIZEMAX": sizemax, "BIGMAX": big, "BIAS": bias}
    for t in ("OK", "EQV", "FAIL", "LAW", "BOOM", "COMM", "COLL", "LIB"):
        e["T_" + t] = "1" if t in tags else "0"
    out = tlc_ok(tlc("GenMap", envd=e, workers=1), "GenMap")
    defs = [json.loads(x) for x in tlc_lines(out, "DEF")]
    vals = {v["val"]: v for v in map(json.loads, tlc_lines(out, "VAL"))}
    cases = [json.loads(x) for x in tlc_lines(out, "CASE")]
    return defs, vals, cases


def flat(v, out):
    out += [v["v"], v["t"], v["y"], len(v["k"])]
    for k in v["k"]:
        flat(k, out)


def compile_programs(libs, defs, progs, workdir):
    """progs: {pid: (root, steps, lay)}; returns ([(binary, {pids})], {pid: diagnostic}) """
    by_root = {}
    for pid, (root, *_) in progs.items():
        key = root["n"] if root["c"] == "User" else 0
        by_root.setdefault(key, []).append(pid)
    # chunks of about equal weight
    nchunks = CORES
    chunks = [dict(w=0, keys=[]) for _ in range(nchunks)]
    weights = {k: len(p) + (6 if k else 0) for k, p in by_root.items()}
    lib_pids = by_root.pop(0, [])
    units = [([k], p, weights[k]) for k, p in by_root.items()]
    for i in range(0, len(lib_pids), 40):
        units.append(([], lib_pids[i:i + 40], 40))
    for ks, pids, w in sorted(units, key=lambda u: -u[2]):
        c = min(chunks, key=lambda c: c["w"])
        c["w"] += w
        c["keys"].append((ks, pids))
    dropped = {}

    def one(ci):
        keys = chunks[ci]["keys"]
        if not keys:
            return None
        skip = set()        # definitions that do not compile
        skip_p = set()
        for attempt in range(12):
            src, owner = ["#![allow(warnings)]"], [None]
            need = set()
            for ks, _ in keys:
                for k in ks:
                    need |= render.closure(k, defs)
            bad_defs = {k for k in need if render.closure(k, defs) & skip}
            for k in sorted(need - bad_defs):
                for l in [render.definition(k, defs[k - 1], defs)] + render.build_observe(k, defs[k - 1], defs).split("\n"):
                    src.append(l)
                    owner.append(("d", k))
            pids = []
            for ks, ps in keys:
                for p in ps:
                    if p in skip_p or (ks and ks[0] in bad_defs):
                        continue
                    src.append(render.program(p, progs[p][0], defs, progs[p][1], progs[p][2]))
                    owner.append(("p", p))
                    pids.append(p)
            src.append("fn main() { rt::main(&[" + ", ".join(f"({p}, p{p})" for p in pids) + "]) }")
            owner.append(None)
            src[0] += " " + render.gat_mod("\n".join(src)).strip()
            f = os.path.join(workdir, f"chunk{ci}.rs")
            open(f, "w").write("\n".join(src) + "\n")
            binary = f[:-3]
            ok, diags, p = rustc(f, libs, out=binary)
            if ok:
                return binary, set(pids)
            progress = False
            for d in diags:
                for ln in span_lines(d, f):
                    o = owner[ln - 1] if ln <= len(owner) else None
                    if o is None:
                        continue
                    kind, x = o
                    if kind == "d" and x not in skip:
                        skip.add(x)
                        dropped[("d", x)] = d.get("rendered") or d["message"]
                        progress = True
                    elif kind == "p" and x not in skip_p:
                        skip_p.add(x)
                        dropped[("p", x)] = d.get("rendered") or d["message"]
                        progress = True
            if not progress:
                raise ToolError("harness chunk does not compile:\n" + (p.stderr[:3000]))
        raise ToolError("harness chunk does not compile after several attempts")

    with cf.ThreadPoolExecutor(CORES) as ex:
        bins = [b for b in ex.map(one, range(nchunks)) if b]
    return bins, dropped


def execute(bins, lines_of, workdir):
    """Runs the binaries on their cases; returns {case: record}. A dying process costs one case."""
    def one(b):
        binary, pids = b
        lines = [l for p in sorted(pids) for l in lines_of.get(p, [])]
        path = binary + ".in"
        open(path, "w").write("".join(l + "\n" for l in lines))
        res, start = {}, 0
        order = [int(l.split(" ", 1)[0]) for l in lines]
        while start < len(lines):
            p = subprocess.run([binary, path, str(start)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
            cur, finished = None, False
            for l in p.stdout.splitlines():
                if l.startswith("B "):
                    cur = int(l[2:])
                elif l.startswith("C "):
                    r = json.loads(l[2:])
                    res[r["i"]] = r
                    cur = None
                elif l == "END":
                    finished = True
            if finished:
                break
            if cur is None:
                raise ToolError(f"harness died outside a case: {p.returncode} {p.stderr[-500:]}")
            res[cur] = {"i": cur, "st": "crash", "e": 0, "ev": [], "r": 0, "why": f"exit {p.returncode}: {p.stderr[-300:]}"}
            start = order.index(cur) + 1
        return res

    out = {}
    with cf.ThreadPoolExecutor(CORES) as ex:
        for r in ex.map(one, bins):
            out.update(r)
    return out


def split_events(ev):
    steps, cur, post, ended = [], dict(calls=[], drops=[], fd=0), [], False
    dirty = False
    for kind, i in ev:
        if ended:
            if kind == 2:
                post.append(i)
            continue
        if kind == 1:
            cur["calls"].append(i)
            dirty = True
        elif kind == 2:
            cur["drops"].append(i)
            dirty = True
        elif kind == 3:
            cur["fd"] += 1
            dirty = True
        elif kind == 4:
            steps.append(cur)
            cur, dirty = dict(calls=[], drops=[], fd=0), False
        elif kind == 5:
            ended = True
            if dirty:
                steps.append(cur)
    return steps, post


def judge(defs, vals, cases, records, workdir):
    """TLC on the recorded executions; returns (acc:set, bad:{case:[rule]}, stats)."""
    vidx = {}
    vrows, crows, grows = [], [], []
    groups = {}
    pos = {}
    for i, c in enumerate(cases):
        r = records.get(i)
        if r is None:
            continue
        if c["val"] not in vidx:
            vidx[c["val"]] = len(vrows) + 1
            vrows.append({"ty": vals[c["val"]]["ty"], "v": vals[c["val"]]["v"]})
        steps, post = split_events(r["ev"])
        st = r["st"]
        crows.append({"i": i, "val": vidx[c["val"]], "steps": c["steps"], "tag": c["tag"], "st": st, "e": r["e"],
                      "tr": steps, "post": post, "r": r["r"]})
        pos[i] = len(crows)
        if c["grp"]:
            groups.setdefault((c["tag"], c["grp"]), []).append(len(crows))
    gkeys = []
    for (tag, g), cs in groups.items():
        if len(cs) > 1:
            grows.append({"kind": tag, "cs": cs})
    dump = lambda n, rows: open(os.path.join(workdir, n + ".ndjson"), "w").write("".join(json.dumps(r, separators=(",", ":")) + "\n" for r in rows))
    dump("defs", [{"ps": d["ps"], "vs": d["vs"]} for d in defs] or [{"ps": [], "vs": []}])
    dump("vals", vrows)
    dump("cases", crows)
    dump("groups", grows or [{"kind": "none", "cs": [1]}])
    out = tlc_ok(tlc("TraceMap", envd={"TRDIR": workdir}), "TraceMap")
    acc = {int(x) for x in tlc_lines(out, "ACC")}
    bad = {}
    for l in tlc_lines(out, "BAD"):
        i, rule = l.split(" ", 1)
        bad.setdefault(int(i), []).append(rule)
    return acc, bad, dict(states=tlc_stats(out), traces=len(crows), groups=len(grows))


def pipeline(ndefs, nvals, seed, sizemax, tags, libs=None, label="e1", bias="", keep=None, big=0):
    """keep: which types may occur; big: size of the largest containers"""
    work = sub(label)
    if libs is None:
        libs = build_rt()
    defs, vals, cases = generate(ndefs, nvals, seed, sizemax, tags, bias, big)
    say(f"TLC generated {len(defs)} types, {len(vals)} values, {len(cases)} cases")
    if keep:
        def usable(ty):
            ds = [defs[k - 1] for k in render.closure(ty["n"], defs)] if ty["c"] == "User" else []
            return keep(ty) and all(keep(f) for d in ds for v in d["vs"] for f in v)
        good = {k: usable(v["ty"]) for k, v in vals.items()}
        cases = [c for c in cases if good[c["val"]]]
        say(f"{len(cases)} cases are for the types in question")
    progs, pid_of, lines_of = {}, {}, {}
    flats = {}
    for i, c in enumerate(cases):
        root = vals[c["val"]]["ty"]
        key = (json.dumps(root, sort_keys=True), tuple((s["arg"], s["tr"], s["over"], s["from"], s["to"]) for s in c["steps"]), tuple(c["lay"]))
        if key not in pid_of:
            pid_of[key] = len(progs)
            progs[len(progs)] = (root, key[1], key[2])
        pid = pid_of[key]
        if c["val"] not in flats:
            o = []
            flat(vals[c["val"]]["v"], o)
            flats[c["val"]] = o
        nums = [i, pid, (seed * 7919 + hash_str(c["val"])) % 1000003, len(c["steps"])]
        for s in c["steps"]:
            nums += [s["kf"]["a"], s["kf"]["b"], s["kf"]["m"], len(s["fails"])]
            for f in s["fails"]:
                nums += [f["t"], "epd".index(f["k"])]
        lines_of.setdefault(pid, []).append(" ".join(map(str, nums + flats[c["val"]])))
    bins, dropped = compile_programs(libs, defs, progs, work)
    say(f"compiled {len(progs)} programs into {len(bins)} binaries, {len(dropped)} units dropped")
    records = execute(bins, lines_of, work)
    say(f"ran {len(records)} cases")
    acc, bad, stats = judge(defs, vals, cases, records, work)
    say(f"TLC judged {stats['traces']} traces and {stats['groups']} groups: {len(acc)} accepted by the machine, {len(bad)} with broken rules")
    return dict(defs=defs, vals=vals, cases=cases, progs=progs, dropped=dropped, records=records, acc=acc, bad=bad, stats=stats,
                flats=flats)


def hash_str(s):
    h = 5381
    for ch in s:
        h = (h * 33 + ord(ch)) % 1000003
    return h


def build_rt():
    ok, arts, diag, err = cargo_rlibs("rt")
    if not ok:
        raise ToolError("the harness runtime does not build against /repo:\n" + err[-3000:])
    say("built funcmap and the runtime")
    return Libs(arts)


if __name__ == "__main__":
    import sys
    nd, nv, seed, sz = map(int, sys.argv[1:5])
    r = pipeline(nd, nv, seed, sz, set(sys.argv[5].split(",")))
    for i, b in sorted(r["bad"].items())[:5]:
        print(i, b, json.dumps(r["cases"][i])[:600], json.dumps(r["records"][i])[:600])
    rej = [i for i in r["records"] if i not in r["acc"]]
    for i in rej[:5]:
        print("REJ", i, json.dumps(r["cases"][i])[:600], json.dumps(r["vals"][r["cases"][i]["val"]])[:600], json.dumps(r["records"][i])[:600])
    for k, d in list(r["dropped"].items())[:5]:
        print(k, d[:900])
    print(r["stats"], len(rej))
