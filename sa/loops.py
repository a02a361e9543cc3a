"""Loop summaries: one elementwise run of the body, then any/first/sum/append/prefix normal forms."""
from .vals import *
from .strs import *
from . import strs
from .eng import St

_w = [0]


class NeedAbstract(Exception):
    def __init__(self, ctx):
        self.ctx = ctx


class Ctx:
    """an active loop: which iterator drives it and what one step of it yields"""

    def __init__(self, eng, entry_m):
        self.entry_m = entry_m
        self.mode = "probe"
        self.ptr = None
        self.it = None
        self.w = None
        self.filters = TRUE
        self.broken = None
        self.calls = 0

    def cell(self, m, p):
        fid, loc, proj = p.args
        v = m.get((fid, loc), UNDEF)
        for e in proj:
            if e[0] == "f":
                v = field(v, e[1], e[2])
            else:
                return None
        return v

    def owns(self, p, it):
        return (p.args[0], p.args[1]) in self.entry_m and self.cell(self.entry_m, p) is it


# ---------------------------------------------------------------- sequences
def src_nodes(src):
    return [x for x in src[1:] if isinstance(x, N)]


def seqterm(src, rev, xs):
    """term naming the element sequence"""
    k = src[0]
    if k == "chars":
        s = t("chars", xs[0])
    elif k == "range":
        s = t("range", *xs)
    elif k == "seq":
        s = t("items", xs[0])
    else:
        s = t(k, *xs)
    return t("rev", s) if rev else s


def elem_of(src, w):
    """placeholder for one element"""
    k = src[0]
    if k in ("chars",):
        return leaf(t("elem", w, ty=CHAR))
    if k == "range":
        return leaf(t("elem", w, ty=USIZE))
    if k == "bytes":
        return leaf(t("elem", w, ty=U8))
    ty = src[-1] if isinstance(src[-1], Ty) else None
    return opaque(t("elem", w, ty=ty), ty)


def _mkty(s, k):
    ty = Types({"types": []})._intern(s, k)
    return ty


CHAR = _mkty("char", "char")
USIZE = _mkty("usize", "uint")
U8 = _mkty("u8", "uint")
STR = _mkty("str", "str")
BOOL = _mkty("bool", "bool")

_canon = {}


def close(body, w):
    """replaces the working element name by a canonical binder name"""
    n = body.nest
    return subst(body, {t("elem", w): t("elem", n, ty=_ety(body, w))}), n


def _ety(body, w):
    return t("elem", w).ty


def invariant_split(E, w, f):
    """pushes atoms that do not mention the element out of the binder"""
    k = t("elem", w)
    for a in atoms(E):
        if not mentions(a, k):
            h = _cof_deep(E, a, 1)
            l = _cof_deep(E, a, 0)
            return ite(var(a), invariant_split(h, w, f), invariant_split(l, w, f))
    return f(E)


_ment = {}


def mentions(x, k):
    if not x.bound:
        return False
    r = _ment.get((x, k))
    if r is None:
        r = x is k or k in subterms(x)
        _ment[(x, k)] = r
    return r


_cd = {}


def _cof_deep(n, a, b):
    if n.atom is None or n.ord > a.aid:
        return n
    if n.atom is a:
        return n.hi if b else n.lo
    k = (n, a, b)
    r = _cd.get(k)
    if r is None:
        r = _cd[k] = mk(n.atom, _cof_deep(n.hi, a, b), _cof_deep(n.lo, a, b))
    return r


_reg = {}


def register(op, S, E, n, ty=None):
    """reuses an existing binder term when the bodies agree modulo the theory"""
    from . import compare
    lst = _reg.setdefault((op, S, n), [])
    for e2, tm in lst:
        if e2 is E:
            return tm
    for e2, tm in lst:
        if not e2.weak and not E.weak and compare.equiv(e2, E):
            lst.append((E, tm))
            return tm
    tm = t(op, S, E, n, ty=ty)
    lst.append((E, tm))
    return tm


def unordered(S):
    while S.op == "rev":
        S = S.args[0]
    return S


def parts_of(S):
    """concatenated parts of a sequence for order-insensitive use"""
    S = unordered(S)
    if S.op == "items":
        x = S.args[0]
        if x.op == "sort":
            return parts_of(t("items", x.args[0]))
        if x.op == "lcat":
            r = []
            for p in x.args:
                r += parts_of(t("items", p))
            return r
        if x.op == "list":
            return [("one", y) for y in x.args]
    if S.op == "chars":
        x = S.args[0]
        if x.op == "cat":
            r = []
            for p in x.args:
                r += parts_of(t("chars", p))
            return r
        if x.op == "c":
            return [("one", c(ord(ch))) for ch in x.args[0]]
        if x.op == "chr":
            return [("one", x.args[0])]
    return [("seq", S)]


def above(E, k, lo):
    """E for values of k that are lo or more"""
    if E.atom is None:
        return E
    a = E.atom
    if a.op == "eq" and a.args[0] is k and a.args[1].op == "c" and isinstance(a.args[1].args[0], int) and a.args[1].args[0] < lo:
        return above(E.lo, k, lo)
    if a.op == "ge" and a.args[0] is k and a.args[1] <= lo:
        return above(E.hi, k, lo)
    h, l = above(E.hi, k, lo), above(E.lo, k, lo)
    return h if h is l else mk(a, h, l)


def aschars(S, E, w, both=True):
    """bytes are as good as characters to a condition that treats all of 128.. alike"""
    if S.op == "rev":
        S2 = aschars(S.args[0], E, w, both)
        return S if S2 is S.args[0] else t("rev", S2)
    if S.op == "bytes" and above(E, t("elem", w), 128) in ((TRUE, FALSE) if both else (FALSE,)):
        return t("chars", S.args[0])
    return S


def only_ascii(S):
    """every element of S is below 128"""
    S = unordered(S)
    return S.op in ("twhile", "filt") and above(S.args[1], t("elem", S.args[2]), 128) is FALSE


def keyed(S, E, w):
    """-> (key, what else has to hold of its entry) where E picks the entry of a map or the member of a set by equality"""
    m = S
    if m.op not in ("mapiter", "mapkeys") or E.atom is None:
        return None
    el = t("elem", w)
    pair = t("fld", el, "0")
    for a in atoms(E):
        if a.op != "eq" or _cof_deep(E, a, 0) is not FALSE:
            continue
        for x, y in ((a.args[0], a.args[1]), (a.args[1], a.args[0])):
            if mentions(y, el) or not (x.op == "fld" and x.args[0] is el and x.args[1] == "0" or x is el):
                continue
            from .models import mget
            if x is el:
                mp = {el: y}
            else:
                v = mget(S.args[0], y)
                if v.atom is not None:
                    return None
                mp = {}
                R = _cof_deep(E, a, 1)
                for b in atoms(R):
                    for z in subterms(b):
                        if z.op == "fld" and z.args[0] is el:
                            mp[z] = y if z.args[1] == "0" else v.leaf
            R = subst(_cof_deep(E, a, 1), mp)
            if any(mentions(b, el) for b in atoms(R)):
                return None
            return y, R, x is el
    return None


def mkany(S, E, w):
    kd = keyed(S, E, w)
    if kd is not None:
        from .models import mhas
        return AND(mhas(S.args[0], kd[0]), kd[1])
    S = aschars(S, E, w)
    if E is FALSE:
        return FALSE
    if E is TRUE:
        return nonempty(S)

    def one(E):
        if E is FALSE:
            return FALSE
        r = FALSE
        for k, p in parts_of(S):
            if k == "one":
                r = OR(r, subst(E, {t("elem", w): p}))
            elif E is TRUE:
                r = OR(r, nonempty(p))
            else:
                b, n = close(E, w)
                r = OR(r, var(register("any", p, b, n)))
        return r
    return invariant_split(E, w, one)


def mkfirst(S, E, w):
    """the first element satisfying E (meaningful only where any(S,E))"""
    kd = keyed(S, E, w)
    if kd is not None:
        from .models import mget
        if kd[2]:
            return leaf(kd[0])
        return apply(lambda v: leaf(t("mk", "(,)", "", "0", kd[0], "1", v)), mget(S.args[0], kd[0]))
    S = aschars(S, E, w, False)
    ety = t("elem", w).ty

    def one(E):
        if E is TRUE:
            return first_elem(S, ety)
        if E is FALSE:
            return UNDEFN
        b, n = close(E, w)
        return leaf(register("first", S, b, n, ty=ety))
    return invariant_split(E, w, one)


def first_elem(S, ety):
    rev = False
    while S.op == "rev":
        rev = not rev
        S = S.args[0]
    if S.op == "chars":
        return leaf(chlast(S.args[0]) if rev else chfirst(S.args[0]))
    if S.op == "items":
        x = S.args[0]
        if x.op == "list" and x.args:
            return leaf(x.args[-1 if rev else 0])
        return opaque(t("at", x, add(slen(x), c(1), 1, -1) if rev else c(0), ty=ety), ety)
    if S.op == "range":
        return leaf(add(S.args[1], c(1), 1, -1) if rev else S.args[0])
    return leaf(t("first", S, TRUE, 0, ty=ety))


def mklast(S, E, w):
    S2 = S.args[0] if S.op == "rev" else t("rev", S)
    return mkfirst(S2, E, w)


def mkprefix(S, C, w):
    if C is TRUE:
        return S
    S = aschars(S, C, w, False)
    b, n = close(C, w)
    return register("twhile", S, b, n)


@cons("pos")
def mkpos(e, S):
    """where the character e of S starts"""
    if e.op == "first":
        Q, E, n = e.args
        w = fresh()
        el = t("elem", w, ty=e.ty)
        inc = leaf(utf8len(el))
        E = subst(E, {t("elem", n): leaf(el)})
        if Q is t("chars", S):
            return mksum(mkprefix(Q, NOT(E), w), inc, w)
        if Q is t("rev", t("chars", S)):
            return apply(lambda x: leaf(add(slen(S), add(x, utf8len(e)), 1, -1)), mksum(mkprefix(Q, NOT(E), w), inc, w))
    if e is t("ch", S, "first"):
        return leaf(c(0))
    if e is t("ch", S, "last"):
        return leaf(add(slen(S), utf8len(e), 1, -1))
    return leaf(t("pos", e, S, weak=e.op != "elem", ty=USIZE))


def fresh():
    _w[0] += 1
    return "p%d" % _w[0]


def mksum(S, inc, w):
    u = t("utf8len", t("elem", w))
    if only_ascii(S) and any(u in subterms(x) for x in leaves(inc) if isinstance(x, T)):
        inc = subst(inc, {u: c(1)})
    if inc.atom is None and inc.leaf.op == "c":
        k = inc.leaf.args[0]
        if k == 0:
            return leaf(c(0))
    if inc.atom is None and inc.leaf.op == "utf8len" and inc.leaf.args[0] is t("elem", w) and unordered(S).op == "chars":
        return leaf(slen(unordered(S).args[0]))
    ls = leaves(inc)
    # constant increments: k * count
    ks = {x.args[0] for x in ls if x.op == "c"}
    if all(x.op == "c" for x in ls) and len(ks - {0}) == 1:
        k = next(iter(ks - {0}))
        cnd = cond_of(inc, lambda x: x.args[0] == k)
        if cnd is TRUE:
            S2 = unordered(S)
            if S2.op == "items":
                return leaf(mulc(slen(S2.args[0]), k))
            if S2.op == "bytes":
                return leaf(mulc(slen(S2.args[0]), k))

        def cnt(E):
            S2 = aschars(unordered(S), E, w, False)
            b, n = close(E, w)
            return leaf(mulc(register("sum", unordered(S2), ite(b, cn(1), cn(0)), n), k))
        return cnt(cnd)
    b, n = close(inc, w)
    return leaf(register("sum", unordered(S), b, n))


def starts_with_one(x):
    """the longest prefix of S satisfying P is not empty"""
    S, P, n = x.args
    f = first_elem(S, t("elem", n).ty)
    r = AND(nonempty(S), f.leaf and subst(P, {t("elem", n): f.leaf})) if f.atom is None else None
    return r if r is not None else var(t("ge", slen(x), 1))


def _ge_sum(s, m):
    S, inc, n = s.args
    if m != 1:
        return None
    ls = leaves(inc)
    if all(isinstance(x, T) and x.op == "c" and isinstance(x.args[0], int) and x.args[0] >= 0 for x in ls):
        return mkany(S, cond_of(inc, lambda x: x.args[0] >= 1), n)
    return None


GERULES["sum"] = _ge_sum


def mkcmap(S, app, w):
    """concatenation of per-element strings"""
    if app.atom is None and app.leaf.op == "c" and app.leaf.args[0] == "":
        return leaf(c(""))
    if app.atom is None and S.op == "chars" and app.leaf is chrt(t("elem", w)):
        return leaf(S.args[0])
    if S.op == "range" and app.atom is None and t("elem", w) not in subterms(app.leaf):
        n = add(S.args[1], S.args[0], 1, -1)
        return ite(ge0(n), leaf(strs.repeat(app.leaf, n)), leaf(c("")))
    b, n = close(app, w)
    return leaf(register("cmap", S, b, n, ty=STR))


def mklmap(S, app, w, ty=None):
    e = t("elem", w)
    if app.atom is None and app.leaf.op == "list" and len(app.leaf.args) == 1 and app.leaf.args[0].op == "mk" and pair_of(app.leaf.args[0], e):
        app = leaf(t("list", e))
    if S.op == "items" and app.atom is None and app.leaf.op == "list" and len(app.leaf.args) == 1 and app.leaf.args[0] is e:
        return leaf(S.args[0])
    b, n = close(app, w)
    return leaf(register("lmap", S, b, n, ty=ty))


def pair_of(x, e):
    """(e.0, e.1)"""
    a = x.args
    return str(a[0]).startswith("(") and len(a) == 6 and all(y.op == "fld" and y.args[0] is e and y.args[1] == str(i) for i, y in enumerate((a[3], a[5])))


def mksortby(S, E, w):
    b, n = close(E, w)
    if S.op == "items" and S.args[0].op == "sortby" and S.args[0].args[1] is b and S.args[0].args[2] == n:
        return S.args[0]
    return register("sortby", S, b, n)


# ---------------------------------------------------------------- substitution
def subst(x, mp):
    """mp: T -> T|N ; rebuilds with normalisation. returns N for N, N for T"""
    memo = {}
    mp = {k: (v if isinstance(v, N) else leaf(v)) for k, v in mp.items()}
    keys = set(mp)
    hit = {}

    def touches(y):
        r = hit.get(y)
        if r is None:
            r = (y in keys) or any(k in keys for k in subterms(y))
            hit[y] = r
        return r

    def tm(y):
        """T -> N"""
        r = memo.get(y)
        if r is not None:
            return r
        if y in mp:
            r = mp[y]
        elif not touches(y):
            r = opaque(y, y.ty) if not (y.op in ATOMOPS) else var(y)
            if y.op in ATOMOPS or y.ty is not None and getattr(y.ty, "k", None) == "bool":
                r = var(y)
            else:
                r = leaf(y)
        elif y.op == "lin":
            r = lin_cons(y, tm)
        elif y.op in BIND:
            r = BIND[y.op](y, lambda z, extra: subst(z, dict(mp, **{}) if not extra else {**mp, **extra}))
        else:
            r = rebuild(y, tm)
        memo[y] = r
        return r

    def nd(n):
        r = memo.get(n)
        if r is not None:
            return r
        if n.atom is None:
            if n is TRUE or n is FALSE:
                r = n
            else:
                r = tm(n.leaf)
        elif not touches(n):
            r = n
        else:
            r = ite(boolean(tm(n.atom)), nd(n.hi), nd(n.lo))
        memo[n] = r
        return r
    return nd(x) if isinstance(x, N) else tm(x)


ATOMOPS = {"any", "is", "ge", "eq", "starts", "ends", "has", "full", "start", "cowowned", "more", "found", "grp", "mhas", "badre"}


def rebuild(y, tm):
    op = y.op
    args = y.args
    if op == "fld":
        return apply(lambda a: mkfld(a, args[1], y.ty), tm(args[0]))
    if op == "pay":
        return apply(lambda a: mkpay(a, args[1], args[2], y.ty), tm(args[0]))
    if op == "is":
        def f(a):
            ty = a.ty if is_enum(a.ty) else y.ty
            if a.op == "mk":
                return TRUE if a.args[1] == args[1] else FALSE
            return isatom(a, args[1], ty)
        return apply(f, tm(args[0]))
    if op == "ge":
        return apply(lambda a: ge0(add(a, c(args[1]), 1, -1)), tm(args[0]))
    if op == "mk":
        names = [args[i] for i in range(2, len(args), 2)]
        return apply(lambda *vs: leaf(mkterm(args[0], args[1], tuple(zip(names, vs)))), *[tm(args[i]) for i in range(3, len(args), 2)])
    if any(isinstance(a, N) for a in args):
        new = [subst_n(a, tm) if isinstance(a, N) else a for a in args]
        return leaf(t(op, *new, ty=y.ty))
    pos = [i for i, a in enumerate(args) if isinstance(a, T)]
    f = CONS.get(op)

    def g(*vs):
        new = list(args)
        for i, v in zip(pos, vs):
            new[i] = v
        if f is not None:
            return f(*new)
        r = t(op, *new, ty=y.ty)
        if op in ATOMOPS or y.ty is not None and getattr(y.ty, "k", None) == "bool":
            return var(r)
        return leaf(r)
    return apply(g, *[tm(args[i]) for i in pos])


def subst_n(n, tm):
    if n.atom is None:
        return n if n in (TRUE, FALSE) else tm(n.leaf)
    return ite(boolean(tm(n.atom)), subst_n(n.hi, tm), subst_n(n.lo, tm))


def boolean(n):
    """a node used as a condition: every leaf is a truth value"""
    if n.atom is None:
        x = n.leaf
        return n if x is TT or x is FF else var(x)
    return apply(lambda x: leaf(x) if x is TT or x is FF else var(x), n)


def _rebind(maker):
    def f(y, sub):
        S, E, n = y.args
        _w[0] += 1
        w = "r%d" % _w[0]
        old = t("elem", n)
        tm = t("elem", w, ty=old.ty)
        E2 = sub(E, {old: tm})
        S2 = sub(S, None)
        return apply(lambda s: maker(s, E2, w), S2)
    return f


BIND = {"any": _rebind(mkany), "first": _rebind(mkfirst), "sum": _rebind(mksum), "cmap": _rebind(mkcmap),
        "sortby": _rebind(lambda s, e, w: leaf(mksortby(s, e, w))), "mfold": _rebind(lambda s, e, w: leaf(register("mfold", s, *close(e, w)))),
        "lmap": _rebind(mklmap), "twhile": _rebind(lambda s, e, w: leaf(mkprefix(s, e, w)))}
CONS["chars"] = lambda s: leaf(t("chars", s))
CONS["rev"] = lambda s: leaf(s.args[0] if s.op == "rev" else t("rev", s))


def subst_v(v, mp):
    C = v.__class__
    if C is N:
        return subst(v, mp) if v.bound or not all(k.op in ("elem", "phi") for k in mp) else v
    if C is Agg:
        return Agg(v.ty, {k: subst_v(x, mp) for k, x in v.f.items()}, v.inst)
    if C is Enum:
        return Enum(v.ty, subst_v(v.d, mp), {vn: {k: subst_v(x, mp) for k, x in p.items()} for vn, p in v.p.items()})
    if C is ListV:
        return ListV([subst_v(x, mp) for x in v.items], v.ty)
    if C is IterV:
        return IterV(tuple(subst_v(x, mp) if isinstance(x, N) else (tuple(subst_v(y, mp) for y in x) if isinstance(x, tuple) else x) for x in v.src), v.rev, v.stages)
    return v


# ---------------------------------------------------------------- generalisation of modified cells
class Gen:
    def __init__(self, w):
        self.w, self.n, self.phis = w, 0, []   # (phi term, init N, isbool, path)

    def phi(self, init, isbool, ty, path):
        for p, i, b, pa in self.phis:
            if pa == path:
                return var(p) if b else leaf(p)
        p = t("phi", self.w, len(self.phis), ty=ty)
        self.phis.append((p, init, isbool, path))
        return var(p) if isbool else leaf(p)

    def gen(self, a, b, path, ty=None):
        """a: entry value, b: value after one iteration -> generalised value, or None"""
        if a is b:
            return a
        if b is UNDEF:
            return a
        if a is UNDEF:
            return UNDEF
        A, B = a.__class__, b.__class__
        if A is N and (B is Agg or B is Enum):
            a = expand(a, b.ty)
            A = a.__class__
        if B is N and (A is Agg or A is Enum):
            b = expand(b, a.ty)
            B = b.__class__
        if A is N and B is N:
            la = leaves(a) + leaves(b)
            if any(x.op == "ptr" for x in la):
                return None
            isb = all(x is TT or x is FF for x in la)
            return self.phi(a, isb, next((x.ty for x in la if x.ty is not None), None), path)
        if A is Agg and B is Agg and a.f.keys() == b.f.keys() and a.inst == b.inst:
            f = {}
            for k in a.f:
                g = self.gen(a.f[k], b.f[k], path + ("f:" + k,))
                if g is None:
                    return None
                f[k] = g
            return Agg(a.ty, f, a.inst)
        if A is Enum and B is Enum:
            ns = vnames(a.ty)
            if a.d is b.d:
                d = a.d
            elif len(ns) == 2:
                pa = apply(lambda x: TRUE if x.args[0] == ns[1] else FALSE, a.d)
                d = ite(self.phi(pa, True, None, path + ("d",)), cn(ns[1]), cn(ns[0]))
            else:
                return None
            p = {}
            for vn in set(a.p) | set(b.p):
                q = {}
                for k in set(a.p.get(vn, {})) | set(b.p.get(vn, {})):
                    x, y = a.p.get(vn, {}).get(k, UNDEF), b.p.get(vn, {}).get(k, UNDEF)
                    if x is UNDEF and isinstance(y, N):
                        x = UNDEFN
                    g = self.gen(x, y, path + ("p:" + vn + "." + k,))
                    if g is None:
                        return None
                    q[k] = g
                p[vn] = q
            return Enum(a.ty, d, p)
        if A in (ListV, MapV, N) and B in (ListV, MapV, N):
            return self.phi(enc(a), False, None, path)
        return None


def at_path(v, path):
    for e in path:
        if e == "d":
            v = expand(v, v.ty) if not isinstance(v, Enum) else v
            ns = vnames(v.ty)
            return apply(lambda x: TRUE if x.op == "c" and x.args[0] == ns[1] else FALSE, v.d)
        if e[:2] == "f:":
            v = field(v, e[2:])
        else:
            vn, k = e[2:].split(".", 1)
            v = payload(v, vn, k)
    return v


def run_loop(eng, run, st, fr=None, header=None):
    """run(state) -> (back states, exits); exits: [(target, state)]"""
    # 1. unrolling while the driver is concrete
    saved = (len(eng.panics), len(eng.events), len(eng.notes), len(eng.stack))
    ctx = Ctx(eng, st.m)
    eng.loops.append(ctx)
    exits = []
    cur = St(st.g, dict(st.m))
    ok = False
    try:
        prev = None
        for n in range(eng.MAXU):
            ctx.calls = 0
            ctx.entry_m = cur.m
            backs, ex = run(St(cur.g, dict(cur.m)))
            exits += ex
            b = eng.join(backs)
            if b is None:
                ok = True
                break
            if ctx.calls == 0 and eng.opts.get("stuck"):
                again = repeats(cur, b)
                if again is not FALSE:
                    eng.stuck.append((fr.inst["name"], fr.body["blocks"][header]["sp"][:2], n, again))
            if ctx.calls == 0 and b.g is not cur.g and n >= 3 and not (n < 24 and shrinking(cur.m, b.m)):
                break       # condition not driven by an iterator and not constant
            cur = b
    except NeedAbstract as e:
        if e.ctx is not ctx:
            raise
    finally:
        eng.loops.pop()
    if ok:
        return exits
    del eng.panics[saved[0]:], eng.events[saved[1]:], eng.notes[saved[2]:], eng.stack[saved[3]:]
    return abstract(eng, run, st)


def repeats(s0, s1):
    """the condition under which one turn of a loop leaves everything as it was"""
    def eqv(x, y, g):
        if x is y:
            return TRUE
        if isinstance(x, N) and isinstance(y, N):
            try:
                return apply(lambda a, b: TRUE if a is b else FALSE, restrict(x, g), restrict(y, g))
            except TooBig:
                return FALSE
        if x.__class__ is not y.__class__:
            return FALSE
        r = TRUE
        if isinstance(x, Agg):
            if x.f.keys() != y.f.keys():
                return FALSE
            for k in x.f:
                r = AND(r, eqv(x.f[k], y.f[k], g))
                if r is FALSE:
                    return r
            return r
        if isinstance(x, Enum):
            r = eqv(x.d, y.d, g)
            for k in x.p:
                for q in x.p[k]:
                    if r is FALSE or k not in y.p or q not in y.p[k]:
                        return FALSE
                    r = AND(r, eqv(x.p[k][q], y.p[k][q], g))
            return r
        return TRUE if same(x, y) else FALSE
    g = s1.g
    for k, v in s0.m.items():
        w = s1.m.get(k, UNDEF)
        if w is v or v is UNDEF or w is UNDEF:
            continue
        g = AND(g, eqv(v, w, s1.g))
        if g is FALSE:
            return g
    return g


def shrinking(m0, m1):
    """does a number shrink by division from one turn to the next?"""
    for k, v in m1.items():
        if isinstance(v, N) and v is not m0.get(k):
            for x in leaves(v):
                if x.op == "div" and x.args[1].op == "c" or x.op == "c" and x.args[0] == 0:
                    return True
    return False


def abstract(eng, run, st):
    _w[0] += 1
    w = "w%d" % _w[0]
    gen = Gen(w)
    m0 = dict(st.m)
    bad = set()
    saved = (len(eng.panics), len(eng.events), len(eng.notes))
    for rnd in range(7):
        del eng.panics[saved[0]:], eng.events[saved[1]:], eng.notes[saved[2]:]
        ctx = Ctx(eng, m0)
        ctx.mode, ctx.w = "abs", w
        eng.loops.append(ctx)
        try:
            backs, exits = run(St(st.g, dict(m0)))
        finally:
            eng.loops.pop()
        b = eng.join(backs)
        if b is None:
            return exits if not mentions_w(exits, w) else finish(eng, st, m0, ctx, gen, None, exits, bad)
        changed = False
        m1 = dict(m0)
        for k in list(st.m):
            if ctx.ptr is not None and k == (ctx.ptr.args[0], ctx.ptr.args[1]) and not ctx.ptr.args[2]:
                continue
            old, new = m0.get(k, UNDEF), b.m.get(k, UNDEF)
            if old is new or k in bad:
                continue
            g = gen.gen(st.m[k], new, (k,)[1:] + (("k:%s,%s" % k),) if False else (("@", k),))
            if g is None:
                bad.add(k)
                m1[k] = leaf(t("unk", "loopvar", w, len(bad), weak=True))
                changed = True
            elif not same(g, old):
                m1[k] = g
                changed = True
        if not changed:
            again = positions(eng, run, st, m0, ctx, gen, b, bad, saved)
            if again is not None:
                return again
            return finish(eng, st, m0, ctx, gen, b, exits, bad)
        m0 = m1
    eng.note("loop did not stabilise")
    return finish(eng, st, m0, ctx, gen, b, exits, bad, weak=True)


def positions(eng, run, st, m0, ctx, gen, b, bad, saved):
    """counters that hold the byte position of the current character are named as such"""
    it, w = ctx.it, ctx.w
    if it is None or ctx.broken or it.src[0] != "chars" or it.rev or ctx.filters is not TRUE or it.src[1].atom is not None:
        return None
    S, el, mat = it.src[1].leaf, t("elem", w), t("more", w)
    nx = utf8len(el)

    def upd(b, path):
        v = at_phi(b.m, path)
        if not isinstance(v, N):
            return None
        v = restrict(v, b.g) if b.g is not TRUE else v
        v = _cof_deep(v, mat, 1)
        return v.leaf if v.atom is None else None
    ps = [(p, path) for p, init, isb, path in gen.phis
          if not isb and len(path) == 1 and isinstance(init, N) and init is cn(0) and upd(b, path) is add(p, nx)]
    if not ps:
        return None
    pos = t("pos", el, S, ty=USIZE)
    m1 = dict(m0)
    for p, path in ps:
        m1[path[0][1]] = leaf(pos)
    keep = list(eng.panics[saved[0]:]), list(eng.events[saved[1]:]), list(eng.notes[saved[2]:])
    del eng.panics[saved[0]:], eng.events[saved[1]:], eng.notes[saved[2]:]
    c2 = Ctx(eng, m1)
    c2.mode, c2.w = "abs", w
    eng.loops.append(c2)
    try:
        backs, exits = run(St(st.g, dict(m1)))
    finally:
        eng.loops.pop()
    b2 = eng.join(backs)
    good = b2 is not None and not c2.broken and c2.it is not None and c2.filters is TRUE and all(upd(b2, path) is add(pos, nx) for p, path in ps)
    if good:
        old = list(gen.phis)
        for k in list(st.m):
            if k in bad or any(path == (("@", k),) for p, path in ps) or c2.ptr is not None and k == (c2.ptr.args[0], c2.ptr.args[1]) and not c2.ptr.args[2]:
                continue
            if b2.m.get(k, UNDEF) is m1.get(k, UNDEF):
                continue
            g = gen.gen(st.m[k], b2.m.get(k, UNDEF), (("@", k),))
            if g is None or not same(g, m1[k]):
                good = False
                break
        if len(gen.phis) != len(old):
            good = False
            gen.phis[:] = old
    if not good:
        eng.panics[saved[0]:], eng.events[saved[1]:], eng.notes[saved[2]:] = keep
        return None
    gen.phis[:] = [x for x in gen.phis if x[0] not in {p for p, _ in ps}]
    return finish(eng, st, m1, c2, gen, b2, exits, bad, ends={pos: leaf(slen(S))})


def mentions_w(exits, w):
    return True


def same(a, b):
    if a is b:
        return True
    if a.__class__ is not b.__class__:
        return False
    if isinstance(a, Agg):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, Enum):
        return a.d is b.d and a.p.keys() == b.p.keys() and all(a.p[k].keys() == b.p[k].keys() and all(same(a.p[k][x], b.p[k][x]) for x in a.p[k]) for k in a.p)
    if isinstance(a, ListV):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    return False


def finish(eng, st, m0, ctx, gen, b, exits, bad, weak=False, ends=None):
    w = ctx.w
    g0 = st.g
    phis = gen.phis
    phiset = {p for p, _, _, _ in phis}
    mat = t("more", w)

    def rel(g):
        return restrict(g, g0)

    def has_phi(n):
        return isinstance(n, N) and n.bound and any(x in phiset for x in subterms(n))

    more = var(mat)
    if ctx.it is None or ctx.broken:
        weak = True
        eng.note("loop without a recognised driver" if ctx.it is None else "loop driver: " + str(ctx.broken))
    C = FALSE if b is None else _cof_deep(rel(b.g), mat, 1)   # continue under more
    F = ctx.filters
    ex = []
    E = FALSE
    for tg, s in exits:
        r = rel(s.g)
        e1 = AND(_cof_deep(r, mat, 1), F)
        e0 = _cof_deep(r, mat, 0)
        ex.append((tg, s, e1, e0))
        E = OR(E, e1)
    # states that neither continue nor exit have panicked; treat C as given
    if has_phi(E) or has_phi(F):
        weak = True
    res = []
    if weak:
        bodyt = []
        for p, init, isb, path in phis:
            bodyt.append(enc(init))
            if b is not None:
                v = at_phi(b.m, path)
                bodyt.append(v if isinstance(v, N) else enc(v))
        key = t("gloop", w, weak=True)
        canon = canonical_weak(eng, ctx, phis, b, ex, st, w)
        for i, (tg, s, e1, e0) in enumerate(ex):
            gsel = var(t("unk", "loopexit", canon, i, weak=True))
            mp = {p: leaf(t("unk", "loopval", canon, i, j, ty=p.ty, weak=True)) if not isb else var(t("unk", "loopval", canon, i, j, weak=True)) for j, (p, _, isb, _) in enumerate(phis)}
            mp[t("elem", w)] = leaf(t("unk", "loopelem", canon, i, ty=t("elem", w).ty, weak=True))
            mp[mat] = var(t("unk", "loopmore", canon, i, weak=True))
            mm = {k: subst_v(v, mp) for k, v in s.m.items()}
            res.append((tg, St(AND(g0, gsel), mm)))
        # sites inside the loop body become weak too
        return res
    # element sequence
    it = ctx.it
    xs = src_nodes(it.src)

    def overS(f):
        return apply(lambda *a: f(seqterm(it.src, it.rev, a)), *xs)

    anyE = overS(lambda S: mkany(S, E, w)) if E is not FALSE else FALSE

    fin_full, fin_pre, okphi = {}, {}, True
    if b is not None:
        for p, init, isb, path in phis:
            v = at_phi(b.m, path)
            if not isinstance(v, N):
                v = enc(v)
            v = restrict(v, b.g) if b.g is not TRUE else v
            v = _cof_deep(v, mat, 1)
            v = restrict(v, AND(C, TRUE)) if C is not FALSE else v
            upd = ite(F, v, var(p) if isb else leaf(p))
            f1 = overS(lambda S: final(S, p, upd, isb, w, phiset, init))
            if any(x.op == "fail" for x in leaves(f1)):
                okphi = False
                f1 = None
            if E is FALSE or f1 is None:
                f2 = f1
            else:
                f2 = overS(lambda S: final(mkprefix(S, NOT(E), w), p, upd, isb, w, phiset, init))
            j = phis.index((p, init, isb, path))
            if f1 is None:
                canon = canonical_weak(eng, ctx, phis, b, ex, st, w)
                f1 = f2 = leaf(t("unk", "loopval", canon, j, ty=p.ty, weak=True)) if not isb else var(t("unk", "loopval", canon, j, weak=True))
            fin_full[p], fin_pre[p] = f1, f2
    el = t("elem", w)
    firstE = overS(lambda S: mkfirst(S, E, w)) if E is not FALSE else None
    if getattr(el.ty, "k", None) == "bool":
        firstE = None
    for tg, s, e1, e0 in ex:
        if e1 is not FALSE:
            mp = dict(fin_pre)
            if firstE is not None:
                mp[el] = firstE
            mp[mat] = TRUE
            g = AND(g0, anyE, subst(e1, mp))
            if g is not FALSE:
                mm = {}
                for k, v in s.m.items():
                    mm[k] = v if v is st.m.get(k) else subst_v(v, mp)
                fix_iter(ctx, mm, "early", firstE)
                res.append((tg, St(g, mm)))
        if e0 is not FALSE:
            mp = dict(fin_full)
            mp[mat] = FALSE
            mp[el] = UNDEFN
            mp.update(ends or {})
            g = AND(g0, NOT(anyE), subst(e0, {**fin_full, **(ends or {})}) if has_phi(e0) or ends else e0)
            if g is not FALSE:
                mm = {}
                for k, v in s.m.items():
                    mm[k] = v if v is st.m.get(k) else subst_v(v, mp)
                fix_iter(ctx, mm, "end", None)
                res.append((tg, St(g, mm)))
    return res


def fix_iter(ctx, m, how, first):
    p = ctx.ptr
    if p is None or p.args[2]:
        return
    k = (p.args[0], p.args[1])
    if k in m and m[k] is ctx.it:
        if how == "end":
            m[k] = IterV(("list", ()), False, ())
        else:
            m[k] = fresh_unk("iterator after early exit")


def at_phi(m, path):
    k = path[0][1]
    return at_path(m.get(k, UNDEF), path[1:])


def canonical_weak(eng, ctx, phis, b, ex, st, w):
    """a deterministic name for a loop nobody could summarise"""
    parts = []
    if ctx.it is not None:
        parts.append(enc(ctx.it))
    for p, init, isb, path in phis:
        parts.append(init)
        if b is not None:
            v = at_phi(b.m, path)
            parts.append(v if isinstance(v, N) else enc(v))
    for tg, s, e1, e0 in ex:
        parts += [e1, e0]
    if b is not None:
        parts.append(restrict(b.g, st.g))
    n = max([x.nest for x in parts] + [0])
    mp = {t("elem", w): t("elem", "g%d" % n, ty=t("elem", w).ty), t("more", w): var(t("more", "g%d" % n))}
    for j, (p, _, isb, _) in enumerate(phis):
        q = t("phi", "g%d" % n, j, ty=p.ty)
        mp[p] = var(q) if isb else leaf(q)
    try:
        return t("gloop", *[subst(x, mp) for x in parts], weak=True)
    except TooBig:
        _w[0] += 1
        return t("gloop", "big", _w[0], weak=True)


FAIL = leaf(t("fail"))


def final(S, p, upd, isb, w, phiset, init):
    """value of accumulator p after processing S with per-element update upd"""
    el = t("elem", w)
    if isb:
        h, l = _cof_deep(upd, p, 1), _cof_deep(upd, p, 0)
        if any(x in phiset for n in (h, l) for x in subterms(n)):
            return FAIL
        if h is TRUE:
            return OR(init, mkany(S, l, w))
        if l is FALSE:
            return AND(init, NOT(mkany(S, NOT(h), w)))
        if h is l:      # assigned on every iteration
            return ite(nonempty(S), subst(h, {el: mklast(S, TRUE, w)}), init)
        wr = IFF(h, l)  # value does not depend on p: written
        return ite(mkany(S, wr, w), subst(AND(h, l), {el: mklast(S, wr, w)}), init)
    if any(map_root(x) is p and x is not p for x in leaves(upd)):
        # a map built entry by entry
        if not all(map_root(x) is p for x in leaves(upd)) or upd.weak or any(x in phiset and x is not p for x in subterms(upd)):
            return FAIL
        b, n = close(subst(upd, {p: leaf(t("acc", el))}), w)
        m = register("mfold", S, b, n)
        return apply(lambda a: leaf(t("mplus", a, m)), init)
    if any(a in phiset or any(x in phiset for x in subterms(a)) for a in atoms(upd)):
        return FAIL
    kinds = set()
    for x in leaves(upd):
        kinds.add(classify(x, p, phiset)[0])
    kinds.discard("same")
    if not kinds:
        return init
    if "weak" in kinds or len(kinds) > 1:
        return FAIL
    k = kinds.pop()
    if k == "append":
        app = apply(lambda x: leaf(classify(x, p, phiset)[1] if x is not p else c("")), upd)
        r = mkcmap(S, app, w)
        return apply(lambda a, b: leaf(cat(a, b)), init, r)
    if k == "lappend":
        app = apply(lambda x: leaf(classify(x, p, phiset)[1] if x is not p else t("list")), upd)
        r = mklmap(S, app, w, p.ty)
        return apply(lambda a, b: leaf(lcat(a, b)), init, r)
    if k == "inc":
        inc = apply(lambda x: leaf(classify(x, p, phiset)[1] if x is not p else c(0)), upd)
        r = mksum(S, inc, w)
        return apply(lambda a, b: leaf(add(a, b)), init, r)
    if k == "const":
        wr = cond_of(upd, lambda x: x is not p)
        return ite(mkany(S, wr, w), subst(upd, {el: mklast(S, wr, w)}), init)
    return FAIL


def map_root(x):
    while x.op == "minsert":
        x = x.args[0]
    return x


def classify(x, p, phiset):
    if x is p:
        return "same", None
    if x.op == "cat" and x.args[0] is p:
        r = cat(*x.args[1:])
        return ("append", r) if not any(y in phiset for y in subterms(r)) else ("weak", None)
    if x.op == "lcat" and x.args[0] is p:
        r = lcat(*x.args[1:])
        return ("lappend", r) if not any(y in phiset for y in subterms(r)) else ("weak", None)
    if x.op == "lin" and dict(x.args[1]).get(p) == 1:
        r = add(x, p, 1, -1)
        return ("inc", r) if not any(y in phiset for y in subterms(r)) else ("weak", None)
    if any(y in phiset for y in subterms(x)):
        return "weak", None
    return "const", x
