"""C01: every place that can panic, with the condition under which it does (from the gated value of the
function it is in, all callees expanded or opaque); a place whose condition the theory refutes is safe.
A condition that still holds is followed into the callers, down from the public operations."""
import multiprocessing as mp, re, signal, time
from . import callg, oblig, run, extra
from .compare import sat, Weak, Budget
from . import loops, models as M
from .models import short, isv
from .strs import *
from .term import *
from .vals import *

# additions of sizes of things that are in memory cannot overflow; running out of memory is excluded
LIMIT = 150
MEMORY = re.compile(r"assert:overflow:(Add|Mul)")


def regex_errors(g):
    """the condition without those branches in which an internal operation has failed to compile a pattern"""
    seen = {}

    def go(n):
        if n.atom is None:
            return n
        if id(n) in seen:
            return seen[id(n)]
        a = n.atom
        if a.op == "is" and a.args[1] == "RegexError" and a.args[0].op == "pay" and isinstance(a.args[0].args[0], T) and a.args[0].args[0].op.startswith("b:"):
            r = go(n.lo)
        else:
            r = ite(var(a), go(n.hi), go(n.lo))
        seen[id(n)] = r
        return r
    return go(g)


def opaque_text(x):
    """text that another operation of the crate produced: nothing is known about it here"""
    while True:
        if x.op in ("b:", "bm") or x.op.startswith("b:"):
            return True
        if x.op in ("pay", "fld", "slice", "mstr", "at") and x.args and isinstance(x.args[0], T):
            x = x.args[0]
            continue
        return extra.metaty(x.ty) or x.op == "mget" or (x.op == "arg" and str(x.args[0]).startswith("self."))


def from_metadata(x):
    while isinstance(x, T):
        if extra.metaty(x.ty) or x.op == "mget":
            return True
        if x.op in ("pay", "fld", "slice", "at") and x.args and isinstance(x.args[0], T):
            x = x.args[0]
            continue
        return False
    return False


_vals = {}


def value_of(n):
    p = oblig.program()
    if n not in _vals:
        _vals[n] = None
        try:
            _vals[n] = sites(p, n)[1]
        except Exception:
            pass
    return _vals[n]


def part(v, path):
    """the text at a path of a value, or None"""
    try:
        if isinstance(v, Enum) and set(v.p) >= {"Ok"} and "RegexError" in v.ty.s:
            v = payload(v, "Ok", "0")
        for e in path:
            v = payload(v, e[0], e[1]) if isinstance(e, tuple) else field(v, e)
        return enc(v)
    except Exception:
        return None


def ascii_text(x, depth=0):
    """is the text x ASCII, whatever the input?  Calls are looked into."""
    if from_metadata(x) or M.ascii_only(x):
        return True
    if depth > 5:
        return False
    if x.op == "cat":
        return all(ascii_text(y, depth + 1) for y in x.args)
    if x.op in ("slice", "repeat"):
        return ascii_text(x.args[0], depth + 1)
    if x.op == "cmap":
        S, b, k = x.args
        el = t("elem", k)
        b = loops.above(b, el, 128)
        return all(M.ascii_only(y) for y in leaves(b) if isinstance(y, T)) or all(ascii_leaf(b, y, el) for y in leaves(b))
    path, y = [], x
    while True:
        if y.op.startswith("b:"):
            break
        if y.op == "fld":
            path.append(y.args[1])
            y = y.args[0]
        elif y.op == "pay":
            path.append((y.args[1], y.args[2]))
            y = y.args[0]
        else:
            return False
    p = oblig.program()
    n = next((m for m in p.names if m.split(":")[-1] == y.op[2:] and not m.startswith("A:")), None)
    if n is None:
        return False
    v = value_of(n)
    u = part(v, path[::-1]) if v is not None else None
    if u is None:
        return False
    an = p.argnames(n)
    names = {nm: i for i, nm in an.items()}
    off = len(an) - len(y.args)
    for z in leaves(u):
        if ascii_text(z, depth + 1):
            continue
        g = cond_of(u, lambda q: q is z)
        # an empty text, or a part of an argument that is ASCII in this call
        try:
            if sat(AND(g, NOT(le(slen(z), c(0))))) is None:
                continue
        except (Weak, Budget, TooBig):
            return False
        base = z
        while base.op == "slice":
            base = base.args[0]
        if base.op == "arg" and base.args[0] in names and names[base.args[0]] - off >= 0 and ascii_text(y.args[names[base.args[0]] - off], depth + 1):
            continue
        return False
    return True


def ascii_leaf(b, y, el):
    """a character that is passed on only where it is ASCII"""
    if M.ascii_only(y):
        return True
    try:
        return sat(AND(cond_of(b, lambda q: q is y), NOT(le(el, c(127))))) is None
    except (Weak, Budget, TooBig):
        return False


_asc = {}


def is_ascii(x):
    if x not in _asc:
        _asc[x] = ascii_text(x)
    return _asc[x]


def refined(g):
    """embedded text is ASCII (checked with the data), so every index into it is a boundary"""
    seen = {}

    def go(n):
        if n.atom is None:
            return n
        if id(n) in seen:
            return seen[id(n)]
        a = n.atom
        if a.op == "boundary" and is_ascii(a.args[0]):
            r = go(n.hi)
        else:
            r = ite(var(a), go(n.hi), go(n.lo))
        seen[id(n)] = r
        return r
    return go(g)


def in_ranges(e, g):
    """an element of a range lies within it"""
    for w in {z.args[0] for a in extra_terms(g) for z in subterms(a) if z.op == "elem" and z.args[0] in e.ranges}:
        lo, hi = e.ranges[w]
        g = AND(g, apply(lambda x: le(x, t("elem", w)), lo))
        g = AND(g, apply(lambda x: lt(t("elem", w), x), hi))
    return g


def weak_witness(w):
    """does the witness rest on what this function cannot know?"""
    for a, b in w:
        for z in subterms(a):
            if z.op in ("phi", "gloop", "loopvar", "unk"):
                return "a value carried around a loop"
        if a.op == "boundary" and not b and opaque_text(a.args[0]):
            return "a position in a text that another operation made"
        if a.op == "ovf":
            if a.args[2:] and str(a.args[2]).endswith("usize") and b:
                return "memory"
        if a.op in ("ge", "eq"):
            for z in subterms(a):
                if z.op.startswith("b:") and z.ty is not None and z.ty.k == "int":
                    return "a number that another operation made"
    return None


def judge(e, s):
    """-> ('safe'|'memory'|'weak'|'sat', detail)"""
    if MEMORY.search(s.kind) and all_usize(s.g):
        return "memory", None
    return verdict(e, s.g)


def verdict(e, g):
    try:
        w = sat(in_ranges(e, refined(regex_errors(g))))
    except Weak:
        return "weak", "depends on a value that is not modelled"
    except (Budget, TooBig):
        return "weak", "too many cases"
    if w is None:
        return "safe", None
    why = weak_witness(w)
    if why:
        return "weak", why
    return "sat", w


def all_usize(g):
    for z in extra_terms(g):
        if z.op == "ovf":
            return str(z.args[-1]).endswith("usize")
    return False


def extra_terms(n):
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.atom is not None:
            yield x.atom
            todo += [x.lo, x.hi]


def sites(p, n, skip=()):
    own = n.split(":")[-1]
    sk = {s.split(":")[-1] for s in skip}
    bs = {b: None for b in p.bounds if (n.startswith("A:") or b != own) and b not in sk}
    return run.evaluate(p.di, p.impl[n], bs, opts={"assume_asserts": False, "sites": True}, names=p.argnames(n))


def siteid(s):
    return (short(s.fn), s.kind, str(s.span))


_ev = {}


def evaluated(p, n):
    if n not in _ev:
        _ev[n] = sites(p, n)[0]
    return _ev[n]


def reaches(p, n, g, seen, depth=0):
    """can condition g on the arguments of n hold when n is called from a public operation? -> (verdict, chain)"""
    if n.startswith("A:"):
        return "sat", [n]
    worst = ("safe", [n])
    an = p.argnames(n)
    for m in p.callers(n):
        if m in seen:
            continue
        try:
            e = evaluated(p, m)
        except Exception as x:
            worst = ("weak", [n, m + " (" + str(x)[:60] + ")"])
            continue
        own = n.split(":")[-1]
        if own not in p.bounds:
            continue        # written out there, and judged there
        for ev in e.events:
            if ev.kind != "bcall" or ev.info[0] != own:
                continue
            try:
                g2 = AND(ev.g, loops.subst(g, {t("arg", an[i]): v for i, v in zip(ev.info[1], ev.info[2])}))
                k, d = verdict(e, g2)
            except (TooBig, RecursionError):
                k, g2 = "weak", None
            if k == "sat" and depth < 8:
                k, ch = reaches(p, m, g2, seen | {m}, depth + 1)
                if k == "sat":
                    return "sat", [n] + ch
                if k == "weak":
                    worst = ("weak", [n] + ch)
            elif k != "safe":
                worst = ("weak", [n, m])
    return worst


def job(n):
    """-> everything about one function, as plain data"""
    p = oblig.program()
    out = {"name": n, "sites": [], "notes": [], "wall": 0}
    t0 = time.time()
    signal.signal(signal.SIGALRM, oblig._alarm)
    signal.alarm(LIMIT)
    try:
        e, v, st, _ = sites(p, n)
        for s in e.panics:
            k, d = judge(e, s)
            rec = {"id": siteid(s), "fn": short(s.fn), "kind": s.kind, "span": str(s.span), "verdict": k, "why": None, "when": None, "chain": None, "info": repr(s.info)[:400]}
            if k == "sat":
                k2, ch = reaches(p, n, s.g, {n})
                rec["chain"] = ch
                rec["verdict"] = {"safe": "callers", "weak": "weak", "sat": "sat"}[k2]
                rec["when"] = [(repr(a)[:160], b) for a, b in d][:24]
                if k2 == "weak":
                    rec["why"] = "in " + " <- ".join(ch)
            elif k == "weak":
                rec["why"] = d
            out["sites"].append(rec)
        if n.startswith("I:") and isinstance(v, Enum) and "Err" in v.p:
            w = regex_error(v)
            if w is not None:
                out["regexerror"] = [(repr(a)[:160], b) for a, b in w][:24]
    except oblig.Late:
        out["notes"].append("not analysed to the end: %s (time limit)" % n)
    except Exception as x:
        out["notes"].append("not analysed: %s (%s: %s)" % (n, type(x).__name__, str(x)[:80]))
    finally:
        signal.alarm(0)
    out["wall"] = round(time.time() - t0, 2)
    return out


def regex_error(v):
    """an error on which the public wrapper gives up"""
    er = v.p["Err"].get("0")
    bad = None
    if isinstance(er, Enum) and "RegexError" in er.ty.s + str(getattr(er.ty, "variants", "")):
        bad = AND(cond_of(v.d, lambda x: x is c("Err")), cond_of(er.d, lambda x: x is c("RegexError")))
    elif re.search(r"InvalidRegexError>$", v.ty.s):
        bad = cond_of(v.d, lambda x: x is c("Err"))
    if bad is None or bad is FALSE:
        return None
    try:
        return sat(refined(regex_errors(bad)))
    except (Weak, Budget, TooBig):
        return None


def c01(o):
    p = oblig.program()
    tally = {}
    seen = set()
    with mp.get_context("fork").Pool(8) as pool:
        rs = pool.map(job, p.names, chunksize=1)
    fns = 0
    for r in rs:
        n = r["name"]
        fns += not r["notes"]
        o.notes += r["notes"]
        for s in r["sites"]:
            k = s["verdict"]
            tally[k] = tally.get(k, 0) + 1
            if k == "weak":
                o.notes.append("undecided: %s in %s at %s: %s" % (s["kind"], s["fn"], s["span"], s["why"]))
            if k == "sat" and s["id"] not in seen:
                seen.add(s["id"])
                o.add("C01:%s:%s" % (s["fn"], s["kind"]), s["span"], "%s can panic (%s): reached from %s" % (s["fn"], s["kind"], " <- ".join(reversed(s["chain"]))),
                      {"when": s["when"], "operands": s["info"]})
        if r.get("regexerror"):
            o.add("C01:regexerror:%s" % n.split(":")[-1], extra.span(p, p.impl[n]), "%s can answer RegexError, on which the public operation panics" % n.split(":")[-1],
                  {"when": r["regexerror"]})
    o.samples += [{k: s[k] for k in ("fn", "kind", "span", "verdict")} for r in rs for s in r["sites"] if s["verdict"] != "memory"][:20]
    o.programs += fns
    o.cov.update(functions_analysed=fns, panic_sites=tally, slowest=max((r["wall"], r["name"]) for r in rs))
