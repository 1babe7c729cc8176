import importlib, json, os, signal, sys, time, traceback
from common import *

EVID = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.jsonl")


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.violations = []          # (key, text, replay dict)
        self.known = []               # finding entries seen again
        self.coverage = {}
        self.assumptions = []
        self.level = "model_checking"
        self.findings = [f for f in load_findings() if f["property"] == prop and f["status"] == "known"]

    def violation(self, key, text, replay):
        """key identifies the failing input, to be compared with the known findings."""
        for f in self.findings:
            if f["key"] == key:
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append((key, text, replay))

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.coverage:
                self.coverage[k] += v
            elif isinstance(v, list) and k in self.coverage:
                self.coverage[k] += v
            else:
                self.coverage[k] = v


def load_findings():
    res = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l and not l.startswith("#"):
                res.append(json.loads(l))
    return res


ENGINE = {
    "C01": "e1check", "C02": "e1check", "C03": "e1check", "C04": "e1check", "C05": "e1check",
    "C07": "e1check", "C08": "e1check", "C09": "e1check",
    "C10": "e2check", "C11": "e2check", "C14": "e2check", "C16": "e6check", "C06": "e3check", "C12": "e3check", "C13": "e4check", "C15": "e5check", "C17": "e7check", "C18": "e8check",
}


def main(argv):
    if len(argv) == 2 and argv[0] == "replay":
        r = json.load(open(argv[1]))
        return importlib.import_module(r["engine"]).replay(r)
    if len(argv) != 2 or argv[0] not in ENGINE or argv[1] not in ("quick", "thorough"):
        print(__doc__ or "usage: check <ID> quick|thorough")
        print("properties:", " ".join(sorted(ENGINE)))
        return 2
    prop, tier = argv
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    scratch()
    rep = Report(prop, tier, seed)
    os.makedirs(EVID, exist_ok=True)
    path = os.path.join(EVID, prop + ".json")
    if os.path.exists(path):
        os.remove(path)
    try:
        importlib.import_module(ENGINE[prop]).check(rep)
    except ToolError as e:
        print("NO ANSWER:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": rep.level, "coverage": rep.coverage,
          "assumptions": rep.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(rep.violations)}
    json.dump(ev, open(path, "w"), indent=1)
    for f in rep.known:
        print(f"KNOWN-FINDING: property={prop} {f['what']}")
    if rep.violations:
        rd = os.path.join(EVID, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (key, text, replay) in enumerate(rep.violations[:10]):
            rp = os.path.join(rd, f"{prop}-{n}.json")
            json.dump({"property": prop, "key": key, "what": text, **replay}, open(rp, "w"), indent=1)
            say(f"{prop}: {text[:1500]}")
            print(f"VIOLATION property={prop} replay={rp}")
        if len(rep.violations) > 10:
            say(f"... and {len(rep.violations) - 10} more")
        return 1
    say(f"{prop} {tier}: held on everything explored")
    return 0
