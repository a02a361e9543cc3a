"""development only: remembers obligations found equal, keyed by the source text of every function the comparison looks into"""
import hashlib, os, json, re
from sa import build, oblig
CUT = ("phonenumberutil_internal.rs", "phonenumberutil.rs")  # not helper_functions.rs: it builds the patterns every search depends on
def install(p):
    D = os.environ.get("SA_CACHE", "/tmp/sacache")
    os.makedirs(D, exist_ok=True)
    R = os.environ.get("SA_REPO", "/repo")
    g = hashlib.sha256()
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for d in ("sa", "specs/src"):
        for f in sorted(os.listdir(os.path.join(V, d))):
            if f.endswith((".py", ".rs")): g.update(open(os.path.join(V, d, f), "rb").read())
    seg = {}
    starts = {}
    for k, i in p.di["instances"].items():
        if i["crate"].startswith("rlib") and i.get("span") and "{closure" not in i["name"]:
            starts.setdefault(i["span"][0], set()).add(i["span"][1])
    for r, ds, fs in os.walk(os.path.join(R, "src")):
        for f in sorted(fs):
            q = os.path.join(r, f); rel = os.path.relpath(q, R)
            if not f.endswith(".rs") or "/tests/" in rel: continue
            t = open(q).read()
            ls = ["" if l.strip().startswith("//") else l for l in t.split("\n")]
            if f in CUT:
                st = sorted(starts.get(rel, ()))
                for a, b in zip(st, st[1:] + [len(ls) + 1]):
                    seg[(rel, a)] = "\n".join(x for x in ls[a - 1:b - 1] if x.strip())
                g.update("\n".join(x for x in ls[:st[0] - 1] if x.strip()).encode())
            else:
                g.update("\n".join(x for x in ls if x.strip()).encode())
    g.update(json.dumps([sorted(p.bounds), sorted(p.missing), sorted(p.shape), sorted(p.impl)]).encode())
    glob = g.hexdigest()
    top = {}
    for k, i in p.di["instances"].items():
        if i["crate"].startswith("rlib") and i.get("span"):
            f, l = i["span"][:2]
            c = [a for a in starts.get(f, ()) if a <= l]
            top[k] = (f, max(c)) if c and (f, max(c)) in seg else None
    def key(name, skip):
        sk = {s.split(":")[-1] for s in skip} | {name.split(":")[-1]}
        seen, todo, txt = set(), [p.impl[name]], set()
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if top.get(x): txt.add(seg[top[x]])
            for y in p.g.get(x, ()):
                o = p.byk.get(y)
                if o is not None and o.split(":")[-1] in p.bounds and o.split(":")[-1] not in sk: continue
                todo.append(y)
        return hashlib.sha256(json.dumps([glob, name, sorted(skip), sorted(txt)]).encode()).hexdigest()
    old = oblig.run_all
    def run_all(jobs, procs=8):
        out, rest = [None] * len(jobs), []
        for n, (name, skip) in enumerate(jobs):
            f = os.path.join(D, key(name, skip))
            if os.path.exists(f): out[n] = json.load(open(f))
            else: rest.append((n, f))
        for (n, f), r in zip(rest, old([jobs[n] for n, _ in rest], procs)):
            out[n] = r
            if r["status"] == "equal" and not r.get("expanded"):
                open(f + ".%d" % os.getpid(), "w").write(json.dumps(r)); os.rename(f + ".%d" % os.getpid(), f)
        return out
    oblig.run_all = run_all
