"""python3 -m sa.check <property>: decides one property for /repo's current source."""
import json, os, sys, time
from . import build

VERIF = build.VERIF
EVID = os.environ.get("SA_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Out:
    """what one check found"""

    def __init__(self, pid):
        self.pid, self.violations, self.notes, self.cov = pid, [], [], {}
        self.programs = 0
        self.samples = []
        self.assume = []

    def add(self, key, where, what, detail=None):
        """key names the construct that fails and is stable from run to run"""
        self.violations.append({"key": key, "where": where, "what": what, "detail": detail})


def known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            pre = "finding: property=%s key=" % pid
            if l.startswith(pre):
                k, _, what = l[len(pre):].partition(" | ")
                out[k.strip()] = what.strip()
    return out


def equivalence(o, names):
    from . import oblig
    if oblig.DEEP:
        names = oblig.program().below(names)
    res, viol, notes = oblig.decide(names)
    p = oblig.program()
    st = {}
    for r in res.values():
        st[r["status"]] = st.get(r["status"], 0) + 1
    o.cov.update(functions_compared=len(res), by_status=st, leaf_comparisons=sum(r.get("checked", 0) for r in res.values()),
                 undecided={n: r["undecided"][:2] for n, r in res.items() if r["status"] == "undecided"})
    o.programs += len(res)
    o.notes += notes
    for n, r in sorted(res.items())[:6]:
        o.samples.append({"function": n, "status": r["status"], "leaves": r.get("checked"), "inlined": r.get("inlined", [])[:12], "seconds": r["wall"]})
    for r in viol:
        n = r["name"]
        sp = p.di["instances"][p.impl[n]].get("span") or ["?", 0]
        w = r["bad"][0] if r["bad"] else {}
        o.add("equiv:" + n, "%s:%s" % (sp[0], sp[1]),
              "%s does not do what its definition says (%s): gives %s where %s is right" % (n.split(":")[-1], w.get("at"), w.get("impl", "")[:160], w.get("ref", "")[:160]), r)


def main():
    pid = sys.argv[1]
    if "thorough" in sys.argv[2:]:
        os.environ["SA_DEEP"] = "1"
    t0 = time.time()
    sys.setrecursionlimit(40000)
    from . import props, registry as extra
    o = Out(pid)
    try:
        build.dump()
    except build.BuildError as e:
        print(e)
        sys.exit(3)
    names = props.obligations(pid)
    if names:
        equivalence(o, names)
    for f in extra.CHECKS.get(pid, []):
        f(o)
    level, texts = extra.LEVEL.get(pid, ("translation_validation", None))
    kn = known(pid)
    bad, listed = [], []
    for v in o.violations:
        (listed if v["key"] in kn else bad).append(v)
    cov = dict(o.cov)
    cov["notes"] = o.notes[:60]
    if level == "translation_validation":
        cov["programs"] = o.programs
        cov["disagreements_checked"] = len(o.violations)
        cov["samples"] = o.samples[:20] or ["none"]
    elif level == "other":
        cov["explanation"] = texts
        cov["samples"] = o.samples[:20]
    ev = {"property": pid, "tier": "thorough" if "thorough" in sys.argv[2:] else "quick",
          "seed": int(os.environ.get("VERIF_SEED") or 0), "level": level, "coverage": cov, "assumptions": o.assume + extra.extra.ASSUME,
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
        f.write("\n")
    for v in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[v["key"]]))
    rp = os.path.join(EVID, pid + ".replay.json")
    if bad:
        with open(rp, "w") as f:
            json.dump(bad, f, indent=1, default=str)
        for v in bad:
            print("%s: %s" % (v["where"], v["what"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if os.path.exists(rp):
        os.remove(rp)
    print("property=%s held: %s" % (pid, json.dumps({k: v for k, v in cov.items() if isinstance(v, (int, dict)) and k != "undecided"}, default=str)[:300]))


if __name__ == "__main__":
    main()
