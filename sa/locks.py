"""C04: which locks are held where (typestate dataflow over MIR), and what the pattern cache stores
(rely/guarantee: a look-up by key k gives re(k), so every store under key k has to be re(k))."""
import re
from . import callg, oblig, run
from .compare import compare, Report
from .strs import *
from .term import *
from .vals import *
from .models import short

GUARD = re.compile(r"^(dashmap::mapref::(one|multiple|entry)::\w+|dashmap::(iter|iter_set)::\w+|"
                   r"(std|core|parking_lot|lock_api)\b.*::(Mutex|RwLock|RwLockRead|RwLockWrite|ReentrantLock|MappedMutex|MappedRwLockRead|MappedRwLockWrite)\w*Guard)$")
ACQ = re.compile(r"\b(DashMap|DashSet)::(?!with_capacity|new$|default|with_hasher|with_shard|hasher|shards|hash_usize|determine)\w+"
                 r"|\b(Mutex|RwLock|ReentrantLock|FairMutex)::(lock|read|write|try_lock|try_read|try_write|upgradable_read)\b")
BLOCK = re.compile(r"std::thread::(sleep|park|yield_now)|thread::park|Condvar|Barrier(::<[^>]*>)?::wait|mpsc::\w*Receiver.*::recv|spin_loop|JoinHandle.*::join")


def plain(name):
    """a name without its generic arguments"""
    out, depth, i = [], 0, 0
    if name.startswith("<"):
        name = name[1:].replace(" as ", "::<", 1)   # keep the receiver
    while i < len(name):
        ch = name[i]
        if ch == "<":
            depth += 1
        elif ch == ">" and name[i - 1] != "-":
            depth = max(0, depth - 1)
        elif depth == 0:
            out.append(ch)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out))


class Mir:
    def __init__(self, d):
        self.d, self.ty = d, d["types"]
        up, todo, self.own = {}, [], set()
        for i, x in enumerate(self.ty):
            k = x.get("k")
            subs = []
            if k == "adt":
                if GUARD.match(x["name"]):
                    todo.append(i)
                subs = [f[1] for v in x.get("variants", ()) for f in v["fields"]]
                if x.get("crate") in ("core", "alloc", "std"):
                    subs += x.get("args", ())
            elif k == "tuple":
                subs = x.get("ts", x.get("args", ()))
            elif k in ("array", "slice"):
                subs = [x.get("t")]
            elif k == "closure":
                subs = x.get("upvars", ())
            for y in subs:
                if isinstance(y, int):
                    up.setdefault(y, []).append(i)
        while todo:
            i = todo.pop()
            if i not in self.own:
                self.own.add(i)
                todo += up.get(i, ())

    def guard(self, ti):
        """does a value of this type own a lock guard?"""
        return ti in self.own

    def with_guard(self, ti):
        """variant indices of an enum whose payload owns a guard, None for any other type"""
        x = self.ty[ti]
        if x.get("k") != "adt" or x.get("kind") != "enum" or GUARD.match(x["name"]):
            return None
        return {v["discr"] for v in x["variants"] if any(self.guard(f[1]) for f in v["fields"])}


def succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [x for x in (t[4], t[5]) if isinstance(x, int)]
    if k == "drop":
        return [x for x in (t[2], t[4]) if isinstance(x, int)]
    if k == "assert":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][-2:]
    return []


def moved(x, out):
    if isinstance(x, list):
        if len(x) == 2 and x[0] == "m" and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
            out.append(x[1])
        else:
            for y in x:
                moved(y, out)
    return out


def mentions(x, out):
    """closure and function types handed over in an operand"""
    if isinstance(x, dict):
        for k, v in x.items():
            if k == "fn" and isinstance(v, str):
                out.append(v)
            mentions(v, out)
    elif isinstance(x, list):
        if len(x) > 2 and x[0] == "closure" and isinstance(x[2], str):
            out.append(x[2])
        for y in x:
            mentions(y, out)
    return out


def held_in(m, body):
    """block -> locals that may own a guard at its start; and the discriminants read from them"""
    L = body["locals"]
    gl = {i for i, ti in enumerate(L) if m.guard(ti)}
    if not gl:
        return gl, {}, {}
    B = body["blocks"]
    al, bo = aliases(body, gl)
    inn = {0: frozenset(i for i in gl if 1 <= i <= body["argc"])}
    todo = [0]
    at_term = {}
    while todo:
        n = todo.pop()
        cur = set(inn[n])
        disc = {}
        for s in B[n]["s"]:
            if s[0] == "=":
                for pl in moved(s[2], []):
                    cur.discard(pl[0])
                if s[2][0] == "discr":
                    q = s[2][1]
                    if q[0] in gl and not q[1]:
                        disc[s[1][0]] = q[0]
                    elif q[0] in al and q[1] in ([], [["*"]]):
                        disc[s[1][0]] = al[q[0]]
                if s[1][0] in gl:
                    if not s[1][1] and gives_guard(m, L, s[2]):
                        cur.add(s[1][0])
                    elif s[1][1]:
                        cur.add(s[1][0])
            elif s[0] == "dead":
                cur.discard(s[1])
        t = B[n]["t"]
        at_term[n] = frozenset(cur)
        outs = []
        if t[0] == "call":
            for a in t[2]:
                for pl in moved([a], []):
                    cur.discard(pl[0])
            o2 = set(cur)
            if t[3][0] in gl:
                cur.add(t[3][0])
            if isinstance(t[4], int):
                outs.append((t[4], cur))
            if len(t) > 5 and isinstance(t[5], int):
                outs.append((t[5], o2))
        elif t[0] == "drop":
            if not t[1][1]:
                cur.discard(t[1][0])
            outs = [(x, cur) for x in succ(t)]
        elif t[0] == "switch":
            x = t[1][1][0] if t[1][0] in ("m", "p", "cp") and isinstance(t[1][1], list) else None
            loc = disc.get(x)
            wg = m.with_guard(L[loc]) if loc is not None else None
            if x in bo:
                # the branch on is_some()/is_ok() of it
                for v, b in t[2]:
                    outs.append((b, cur - {bo[x][0]} if (int(v) != 0) != bo[x][1] else cur))
                if t[3] is not None:
                    vals = {int(v) for v, _ in t[2]}
                    outs.append((t[3], cur - {bo[x][0]} if vals == {0} and not bo[x][1] or vals == {1} and bo[x][1] else cur))
                for b, s2 in outs:
                    merge_in(inn, b, s2, todo, len(B))
                continue
            if wg is not None:
                rest = {v["discr"] for v in m.ty[L[loc]]["variants"]}
                for v, b in t[2]:
                    rest.discard(int(v))
                    outs.append((b, cur if int(v) in wg else cur - {loc}))
                if t[3] is not None:
                    outs.append((t[3], cur if rest & wg else cur - {loc}))
            else:
                outs = [(x, cur) for x in succ(t)]
        else:
            outs = [(x, cur) for x in succ(t)]
        for b, s in outs:
            merge_in(inn, b, s, todo, len(B))
    return gl, inn, at_term


def merge_in(inn, b, s, todo, n):
    if not isinstance(b, int) or b >= n:
        return
    o = inn.get(b)
    nw = frozenset(s) if o is None else o | s
    if nw != o:
        inn[b] = nw
        todo.append(b)


def aliases(body, gl):
    """locals that look at an Option or Result holding a guard: local -> owner; booleans: local -> (owner, value when it holds one)"""
    defs = {}
    for bl in body["blocks"]:
        for s in bl["s"]:
            if s[0] == "=" and not s[1][1]:
                defs.setdefault(s[1][0], []).append(("s", s[2]))
        t = bl["t"]
        if t[0] == "call" and not t[3][1]:
            defs.setdefault(t[3][0], []).append(("c", t))
    al, bo = {}, {}
    for _ in range(4):
        for x, ds in defs.items():
            if len(ds) != 1 or x in gl:
                continue
            k, r = ds[0]
            if k == "s":
                if r[0] == "ref" and not r[2][1] and r[2][0] in gl:
                    al[x] = r[2][0]
                elif r[0] == "ref" and r[2][1] == [["*"]] and r[2][0] in al:
                    al[x] = al[r[2][0]]
                elif r[0] == "use" and r[1][0] in ("m", "p", "cp") and isinstance(r[1][1], list) and not r[1][1][1]:
                    y = r[1][1][0]
                    if y in al:
                        al[x] = al[y]
                    if y in bo:
                        bo[x] = bo[y]
                elif r[0] == "un" and "Not" in str(r[1]):
                    for pl in [z for z in r[2:] if isinstance(z, list)]:
                        if pl[0] in ("m", "p", "cp") and pl[1][0] in bo:
                            o, v = bo[pl[1][0]]
                            bo[x] = (o, not v)
            elif isinstance(r[1], dict) and r[2] and r[2][0][0] in ("m", "p", "cp") and isinstance(r[2][0][1], list):
                y = r[2][0][1][0]
                n = plain(r[1].get("name", ""))
                if y in al and re.search(r"(Option|Result)::as_(ref|mut|deref)$", n):
                    al[x] = al[y]
                elif y in al and re.search(r"(Option|Result)::is_(some|ok)$", n):
                    bo[x] = (al[y], True)
                elif y in al and re.search(r"(Option|Result)::is_(none|err)$", n):
                    bo[x] = (al[y], False)
    return al, bo


def gives_guard(m, L, rv):
    """an enum variant without payload holds nothing"""
    if rv[0] == "agg" and not rv[2]:
        return False
    if rv[0] == "agg":
        for op in rv[2]:
            if op[0] in ("m", "p", "cp") and isinstance(op[1], list) and m.guard(L[op[1][0]]):
                return True
        return False
    return True


def acquires(d, g):
    """functions that may take a lock, themselves or through what they call"""
    direct = {k for k, i in d["instances"].items() if ACQ.search(plain(i["name"])) and i["crate"] in ("dashmap", "std", "core", "alloc", "parking_lot", "lock_api")}
    up = {}
    for a, bs in g.items():
        for b in bs:
            up.setdefault(b, set()).add(a)
    seen, todo = {}, [(k, None) for k in direct]
    while todo:
        k, via = todo.pop()
        if k in seen:
            continue
        seen[k] = via
        todo += [(a, k) for a in up.get(k, ())]
    return direct, seen


def chain(d, seen, k):
    out = []
    while k is not None and len(out) < 8:
        out.append(short(d["instances"][k]["name"]) if not d["instances"][k]["name"].endswith("}") else d["instances"][k]["name"].split("::", 1)[-1])
        k = seen.get(k)
    return " -> ".join(out)


def c04_locks(o):
    p = oblig.program()
    d = p.di
    m = Mir(d)
    g = callg.graph(d)
    direct, acq = acquires(d, g)
    nb = ng = nc = 0
    for k, i in d["instances"].items():
        b = i.get("body")
        if not b or not i["crate"].startswith("rlib"):
            continue
        nb += 1
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] == "call" and isinstance(t[1], dict) and BLOCK.search(plain(t[1].get("name", ""))):
                o.add("C04:block:%s" % short(i["name"]), "%s:%s" % tuple(bl["sp"][:2]), "%s waits: it calls %s" % (short(i["name"]), t[1]["name"]), None)
        gl, inn, at = held_in(m, b)
        if not gl:
            continue
        ng += 1
        for n, h in at.items():
            bl = b["blocks"][n]
            t = bl["t"]
            if t[0] != "call":
                continue
            callee = t[1].get("inst") if isinstance(t[1], dict) else None
            own = [pl[0] for pl in moved(t[2], []) if m.guard(b["locals"][pl[0]])]
            hold = set(h) | set(own)
            if not hold:
                continue
            nc += 1
            bad = []
            passed = mentions(t[2], [])
            for a in t[2]:
                if a[0] in ("m", "p", "cp") and isinstance(a[1], list):
                    x = d["types"][b["locals"][a[1][0]]]
                    while x.get("k") == "ref":
                        x = d["types"][x["t"]]
                    if x.get("k") == "closure":
                        passed += [kk for kk, ii in d["instances"].items() if ii["name"] == x["name"] and ii.get("body")]
            for x in ([callee] if callee else []) + passed:
                if x in acq:
                    bad.append(x)
            for x in bad[:1]:
                names = sorted({d["types"][b["locals"][l]]["s"][:60] for l in hold})
                o.add("C04:held:%s" % short(i["name"]), "%s:%s" % tuple(bl["sp"][:2]),
                      "%s takes a lock (%s) while it holds %s" % (short(i["name"]), chain(d, acq, x), ", ".join(names)),
                      {"function": i["name"], "block": n, "held": names, "path": chain(d, acq, x)})
    o.cov.update(functions_scanned=nb, functions_with_guards=ng, calls_under_a_lock=nc, lock_operations=len(direct), functions_that_may_lock=len(acq))


def regex_map(d, ins):
    return any(isinstance(a, int) and "regex::Regex" in d["types"][a]["s"] for a in ins.get("args", ())) or "Regex" in ins["name"]


def c04_cache(o):
    """every store into the cache, and what a look-up function answers"""
    p = oblig.program()
    d = p.di
    done = 0
    for k, i in d["instances"].items():
        b = i.get("body")
        if not b or not i["crate"].startswith("rlib") or "{closure" in i["name"]:
            continue
        names = [bl["t"][1].get("name", "") for bl in b["blocks"] if bl["t"][0] == "call" and isinstance(bl["t"][1], dict)]
        if not any(re.search(r"DashMap|mapref::entry", n) and not re.search(r"::(new|with_capacity|default)$", n) for n in names):
            continue
        done += 1
        try:
            raws = {short(i["name"])}
            e, v, s, outs = run.evaluate(d, k, {}, opts={"raw": raws, "regex_may_fail": True, "cache_open": True}, names={j: "p%d" % j for j in range(b["argc"])})
        except Exception as x:
            o.notes.append("not analysed: %s: %s" % (short(i["name"]), str(x)[:100]))
            continue
        o.programs += 1
        atoms = {a for ev in e.events for a in ev.g.atoms()} if hasattr(TRUE, "atoms") else set()
        for ev in e.events:
            if ev.kind != "store":
                continue
            key, val = ev.info
            want = apply(lambda x: leaf(t("re", x, ty=val.leaf.ty if val.atom is None else None)), key)
            rep = compare(val, want, rely(ev.g, val, want), "stored")
            o.samples.append({"function": short(i["name"]), "stored under": repr(key)[:80], "stored": repr(val)[:120]})
            if rep.bad:
                o.add("C04:store:%s" % short(i["name"]), str(ev.span), "%s stores under %s what is not compiled from that text: %s" % (short(i["name"]), repr(key)[:80], repr(val)[:120]), None)
            for u in rep.undecided[:1]:
                o.notes.append("undecided store in %s: %s" % (short(i["name"]), str(u)[:160]))
            if any(z.op == "badre" for z in subterms_n(ev.g)) is False and False:
                pass
        if short(i["name"]) == "get_regex" and isinstance(v, Enum):
            pat = opaque(t("arg", "p1", ty=run_str()), run_str())
            bad = apply(lambda x: var(t("badre", x)), pat)
            pre = rely(TRUE, v.d, bad)
            rep = Report()
            compare(cond_of(v.d, lambda x: x is c("Err")), bad, pre, "whether it fails", rep)
            okp = v.p.get("Ok", {}).get("0", UNDEFN)
            compare(okp, apply(lambda x: leaf(t("re", x)), pat), AND(pre, NOT(bad)), "the expression", rep)
            o.cov["leaf_comparisons"] = o.cov.get("leaf_comparisons", 0) + rep.checked
            if rep.bad:
                at, w, la, lb = rep.bad[0]
                o.add("C04:answer:get_regex", "%s:%s" % tuple(i["span"][:2]), "get_regex gives %s for %s, where %s is right" % (repr(la)[:140], at, repr(lb)[:140]),
                      {"when": [(repr(a)[:160], x) for a, x in w][:20]})
            for u in rep.undecided[:2]:
                o.notes.append("undecided: get_regex: %s" % str(u)[:160])
    o.cov["functions_on_the_cache"] = done


def run_str():
    from .loops import STR
    return STR


def subterms_n(n):
    out = set()
    seen = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if not isinstance(x, N) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.atom is not None:
            out |= set(subterms(x.atom))
            todo += [x.lo, x.hi]
        elif isinstance(x.leaf, T):
            out |= set(subterms(x.leaf))
    return out


def rely(g, *ns):
    """what is in the cache compiled once"""
    r = g
    for n in (g,) + ns:
        for z in subterms_n(n):
            if z.op == "cached":
                r = AND(r, NOT(AND(var(z), var(t("badre", z.args[0])))))
    return r
