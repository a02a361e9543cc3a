"""C02: loops and recursion.  A loop over a finite sequence ends.  Any other loop is executed symbolically from its entry; a turn that
leaves everything it reads as it was, under a condition that can hold, never ends.  A call back into the function that is being
executed has to falsify the condition under which it is made."""
import re, signal
from . import callg, effects, loops, oblig, panics, run
from .locks import plain
from .models import short
from .strs import *
from .term import *
from .vals import *

INF = re.compile(r"\b(RangeFrom|Repeat|RepeatWith|Cycle|FromFn|Successors|OnceWith)<")
BOUND = re.compile(r"\b(Take|TakeWhile|MapWhile|Zip|Scan)<")
DRAIN = {"collect", "count", "last", "sum", "product", "for_each", "fold", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "partition", "extend", "from_iter", "all", "any", "find",
         "find_map", "position"}
EAGER = DRAIN - {"all", "any", "find", "find_map", "position"}
LIMIT = 60


def sccs(g):
    idx, low, st, on, out = {}, {}, [], set(), []
    for root in list(g):
        if root in idx:
            continue
        work = [(root, iter(g.get(root, ())))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            w = next(it, None)
            if w is None:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        x = st.pop()
                        on.discard(x)
                        comp.append(x)
                        if x == v:
                            break
                    if len(comp) > 1 or v in g.get(v, ()):
                        out.append(comp)
            elif w not in idx:
                idx[w] = low[w] = len(idx)
                st.append(w)
                on.add(w)
                work.append((w, iter(g.get(w, ()))))
            elif w in on:
                low[v] = min(low[v], idx[w])
    return out


def infinite(s):
    s = re.sub(r"\{closure[^}]*\}", "", s)
    return bool(INF.search(s)) and not BOUND.search(s)


def classify(f, h, body):
    """-> 'sequence', 'endless sequence' or 'other'"""
    B = f.b["blocks"]
    dm = f.dom()
    backs = [n for n in body if h in succ_of(B, n)]
    kinds = set()
    for n in body:
        t = B[n]["t"]
        if t[0] != "call" or not isinstance(t[1], dict):
            continue
        m = plain(t[1].get("name", "")).split("::")[-1]
        if m not in ("next", "next_back", "nth") or not t[2] or t[2][0][0] not in ("m", "p"):
            continue
        if not all(n in (dm.get(q) or ()) for q in backs):
            continue
        # what it gives decides whether the loop goes on
        opt = t[3][0]
        ends = False
        for q in body:
            tq = B[q]["t"]
            if tq[0] == "switch" and any(not (isinstance(x, int) and x in body) for x in succ_of(B, q)):
                for s in B[q]["s"]:
                    if s[0] == "=" and s[2][0] == "discr" and s[2][1][0] == opt and tq[1][0] in ("m", "p") and tq[1][1][0] == s[1][0]:
                        ends = True
        r = f.root(t[2][0][1])
        # the iterator is made before the loop and not replaced in it
        fresh = [q for q, pr, _ in f.defs.get(r[0], ()) if q in body]
        if ends and not fresh:
            kinds.add("endless sequence" if infinite(f.ts(t[2][0][1][0])) else "sequence")
    return "sequence" if "sequence" in kinds else "endless sequence" if kinds else "other"


def succ_of(B, n):
    return effects.succ(B[n]["t"])


def named(d, k):
    return "{closure" not in d["instances"][k]["name"] and not d["instances"][k]["name"].endswith("}")


def c02_recursion(o):
    p = oblig.program()
    d = p.di
    g = callg.graph(d)
    own = {k for k, i, b in effects.own(d)}
    n = 0
    for comp in sccs(g):
        if not any(k in own for k in comp):
            continue
        n += 1
        fs = [k for k in comp if named(d, k)]
        if not fs:
            continue
        names = {short(d["instances"][k]["name"]): k for k in fs}
        ev = {}
        try:
            signal.signal(signal.SIGALRM, oblig._alarm)
            signal.alarm(LIMIT)
            for s, k in names.items():
                body = d["instances"][k]["body"]
                bs = {b: None for b in p.bounds}
                bs.update({x: None for x in names})
                e, v, st, _ = run.evaluate(d, k, bs, opts={"assume_asserts": True}, names={i: "%s.%d" % (s, i) for i in range(body["argc"])})
                ev[s] = (e, [x for x in e.events if x.kind == "bcall" and x.info[0] in names])
        except oblig.Late:
            o.notes.append("not analysed to the end: " + ", ".join(names))
            continue
        except Exception as x:
            o.notes.append("not analysed: %s (%s: %s)" % (", ".join(names), type(x).__name__, str(x)[:80]))
            continue
        finally:
            signal.alarm(0)
        for s in sorted(names):
            e = ev[s][0]
            for path, G, A, span in cycles(ev, s, 3):
                o.samples.append({"cycle": " -> ".join(path), "where": str(span)})
                try:
                    k1, w1 = panics.verdict(e, G)
                    if k1 == "safe":
                        continue
                    G2 = again(G, A)
                    k2, _ = panics.verdict(e, AND(G, G2))
                    if k2 == "safe":
                        o.cov["bounded_cycles"] = o.cov.get("bounded_cycles", 0) + 1
                        continue
                    k3, _ = panics.verdict(e, AND(G, NOT(G2)))
                except (TooBig, RecursionError):
                    o.notes.append("undecided recursion: " + " -> ".join(path))
                    continue
                if k1 == "sat" and k3 == "safe":
                    o.add("C02:recursion:%s" % s, str(span), "%s comes back to itself (%s) under a condition that the new arguments satisfy again" % (s, " -> ".join(path)),
                          {"when": [(repr(a)[:160], b) for a, b in w1][:20]})
                else:
                    o.notes.append("undecided recursion: " + " -> ".join(path))
    o.cov["recursive_groups"] = n


def again(G, A):
    return loops.subst(G, A)


def cycles(ev, s, depth):
    """every way from s back to s: (names, condition, {argument: value}, span)"""
    out = []

    def go(at, G, A, path, span):
        for x in ev[at][1]:
            h = x.info[0]
            g2 = AND(G, loops.subst(x.g, A) if A else x.g)
            if g2 is FALSE:
                continue
            A2 = {t("arg", "%s.%d" % (h, i)): loops.subst(v, A) if A else v for i, v in zip(x.info[1], x.info[2])}
            if h == s:
                out.append((path + [h], g2, A2, span or x.span))
            elif len(path) < depth and h not in path:
                go(h, g2, A2, path + [h], span or x.span)
    try:
        go(s, TRUE, {}, [s], None)
    except (TooBig, RecursionError):
        pass
    return out


def c02_loops(o):
    p = oblig.program()
    d = p.di
    tally = {}
    other = set()
    for k, i, b in effects.own(d):
        f = effects.Fn(d, k, i, b)
        for h, body in f.loops().items():
            kd = classify(f, h, body)
            tally[kd] = tally.get(kd, 0) + 1
            if kd == "other":
                other.add(k)
                o.samples.append({"loop": effects.where(b["blocks"][h]), "function": short(i["name"])})
            elif kd == "endless sequence":
                if not any(x not in body and b["blocks"][x]["t"][0] not in ("resume", "unreachable") for n in body for x in succ_of(b["blocks"], n) if not ends_driver(f, n, body)):
                    o.add("C02:endless:%s" % effects.fname(i), effects.where(b["blocks"][h]), "%s goes through a sequence without end and has no other way out" % effects.fname(i), None)
        for bl in b["blocks"]:
            t_ = bl["t"]
            if t_[0] == "call" and isinstance(t_[1], dict) and t_[2]:
                m = plain(t_[1].get("name", "")).split("::")[-1]
                if m in EAGER:
                    for a in t_[2][:2]:
                        ti = effects.opty(d, b, a)
                        if ti is not None and d["types"][ti].get("k") == "adt" and infinite(d["types"][ti]["s"]) and not re.search(r"FromFn|Successors", d["types"][ti]["s"]):
                            o.add("C02:endless:%s" % effects.fname(i), effects.where(bl), "%s uses up a sequence without end (%s)" % (effects.fname(i), m), None)
    # which operations contain such a loop
    todo = []
    for n in p.names:
        seen, st = set(), [p.impl[n]]
        own = n.split(":")[-1]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in p.g.get(x, ()):
                if d["instances"][y]["crate"].startswith("rlib") and not (short(d["instances"][y]["name"]) in p.bounds and named(d, y)):
                    st.append(y)
        if seen & other:
            todo.append(n)
    done = set()
    for n in todo:
        try:
            signal.signal(signal.SIGALRM, oblig._alarm)
            signal.alarm(LIMIT)
            own = n.split(":")[-1]
            bs = {b: None for b in p.bounds if n.startswith("A:") or b != own}
            e = run.evaluate(d, p.impl[n], bs, opts={"assume_asserts": True, "stuck": True}, names=p.argnames(n))[0]
            o.programs += 1
            for fn, sp, turn, G in e.stuck:
                k, w = panics.verdict(e, G)
                if k == "sat":
                    k, ch = panics.reaches(p, n, G, {n})
                    if k == "sat":
                        key = "C02:loop:%s" % short(fn)
                        if key not in done:
                            done.add(key)
                            o.add(key, "%s:%s" % tuple(sp), "%s: after %d turns a turn of the loop changes nothing and the loop goes on" % (short(fn), turn),
                                  {"when": [(repr(a)[:160], b) for a, b in w][:20], "reached": " <- ".join(ch)})
                elif k == "weak":
                    o.notes.append("undecided loop in %s" % short(fn))
        except oblig.Late:
            o.notes.append("not analysed to the end: " + n)
        except Exception as x:
            o.notes.append("not analysed: %s (%s: %s)" % (n, type(x).__name__, str(x)[:80]))
        finally:
            signal.alarm(0)
    o.cov.update(loops=tally, operations_with_other_loops=todo)


def ends_driver(f, n, body):
    """the edge taken when the driving sequence ends"""
    t_ = f.b["blocks"][n]["t"]
    if t_[0] != "switch":
        return False
    for s in f.b["blocks"][n]["s"]:
        if s[0] == "=" and s[2][0] == "discr" and t_[1][0] in ("m", "p") and t_[1][1][0] == s[1][0]:
            for q in body:
                tq = f.b["blocks"][q]["t"]
                if tq[0] == "call" and tq[3][0] == s[2][1][0] and isinstance(tq[1], dict) and plain(tq[1].get("name", "")).split("::")[-1].startswith("next"):
                    return True
    return False
