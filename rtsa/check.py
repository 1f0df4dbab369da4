"""python3 -m rtsa.check C01 [--repo DIR]

Runs one rule set on the source in /repo, writes evidence/<id>.json and, when
something is found, evidence/<id>.violation.json.
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis no longer finds what it has to analyse."""


class Finding:
    def __init__(self, rule, construct, message, where=None, entry=None,
                 path=None):
        self.rule = rule
        self.construct = construct      # stable: no line numbers
        self.message = message
        self.where = where
        self.entry = entry
        self.path = path

    @property
    def key(self):
        return self.rule + "|" + self.construct

    def as_dict(self):
        return {"rule": self.rule, "construct": self.construct,
                "message": self.message, "where": self.where,
                "entry": self.entry, "path": self.path, "key": self.key}


class Report:
    def __init__(self):
        self.findings = []
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.notes = []
        self.explanation = ""
        self.assumptions = []
        self.floors = {}

    def add(self, *a, **k):
        f = Finding(*a, **k)
        for g in self.findings:
            if g.key == f.key:
                return
        self.findings.append(f)

    def ob(self, ok, sample=None):
        self.obligations += 1
        self.discharged += bool(ok)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def floor(self, name, count, minimum):
        self.counts[name] = count
        self.floors[name] = minimum


def load_known():
    p = os.path.join(HERE, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<key> :: text
                body = line[len("finding:"):].strip()
                head, _, text = body.partition(" :: ")
                pid, _, key = head.partition(" key=")
                out.append((pid.replace("property=", ""), key, text))
    return out


def main(argv):
    pid = argv[0]
    root = None
    if "--repo" in argv:
        root = argv[argv.index("--repo") + 1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module("rtsa.rules." + pid.lower())
    rep = Report()
    broken = None
    try:
        mod.run(rep, root or os.environ.get("RTSA_REPO") or "/repo",
                tier == "thorough")
    except Broken as e:
        broken = str(e)
    except Exception:
        traceback.print_exc()
        broken = "internal error"
    known = [(k, t) for p, k, t in load_known() if p == pid]
    new, old = [], []
    for f in rep.findings:
        (old if any(f.key == k for k, _ in known) else new).append(f)
    if broken is None:
        for n, m in rep.floors.items():
            if rep.counts.get(n, 0) < m:
                broken = "only %d %s found, at least %d expected" % (
                    rep.counts.get(n, 0), n, m)
    evd = os.environ.get("RTSA_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    cov = {
        "explanation": rep.explanation,
        "obligations": rep.obligations,
        "discharged": rep.discharged,
        "checker_cmd": "python3 -m rtsa.check " + pid,
        "counts": rep.counts,
        "samples": rep.samples,
        "notes": rep.notes,
        "known_findings": [f.key for f in old],
        "violations": [f.as_dict() for f in new],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other",
          "coverage": cov, "assumptions": rep.assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(evd, pid + ".json"), "w") as fd:
        json.dump(ev, fd, indent=1, default=str)
    for f in old:
        t = [t for k, t in known if k == f.key][0]
        print("KNOWN-FINDING: property=%s %s" % (pid, t))
    vp = os.path.join(evd, pid + ".violation.json")
    if new:
        with open(vp, "w") as fd:
            json.dump([f.as_dict() for f in new], fd, indent=1, default=str)
        for f in new[:20]:
            print("%s: [%s] %s  (entry %s; %s)" % (
                f.where, f.rule, f.message, f.entry, f.path))
        print("VIOLATION property=%s replay=%s" % (pid, vp))
        return 1
    if os.path.exists(vp):
        os.remove(vp)
    if broken:
        print("ANALYSIS BROKEN property=%s: %s" % (pid, broken))
        return 2
    print("OK property=%s obligations=%d discharged=%d %s wall=%.1fs" % (
        pid, rep.obligations, rep.discharged, rep.counts,
        time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
