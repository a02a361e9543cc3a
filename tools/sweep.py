"""every obligation and every extra rule on the tree SA_REPO points at, in one process"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(40000)
from sa import build, check, registry as extra, oblig, props
try:
    build.dump()
except build.BuildError as e:
    print("BUILD", str(e)[-1500:]); sys.exit(3)
p = oblig.program()
if os.environ.get("SA_CACHE") != "0":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import devcache
    devcache.install(p)
names = list(dict.fromkeys(p.names + p.missing + p.shape))
res, viol, notes = oblig.decide(names)
st = {}
for r in res.values():
    st[r["status"]] = st.get(r["status"], 0) + 1
print("obligations", st)
for n in notes: print("  note:", n)
for n, r in res.items():
    if r["status"] == "undecided": print("  UNDECIDED", n, str(r["undecided"])[:220])
for r in viol:
    w = r["bad"][0] if r["bad"] else {}
    print("  VIOL", r["name"], w.get("at"), "|", w.get("impl", "")[:220], "|", w.get("ref", "")[:220], "| when", str(w.get("when"))[:int(os.environ.get("W", "200"))])
def one(a):
    pid, i = a
    o = check.Out(pid)
    extra.CHECKS[pid][i](o)
    return pid, [(v["key"], str(v["what"])[:300]) for v in o.violations]
if "-o" not in sys.argv:
    import multiprocessing as mp, concurrent.futures as cf
    with cf.ProcessPoolExecutor(4, mp_context=mp.get_context("fork")) as pool:
        for pid, vs in pool.map(one, [(pid, i) for pid, fs in extra.CHECKS.items() for i in range(len(fs))]):
            for k, w in vs: print("  VIOL", pid, k, w)
