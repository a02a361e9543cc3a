"""Hash-consed terms and gated values.

A gated value is a multi-terminal binary decision diagram (N) whose inner nodes
test boolean atoms (terms) and whose leaves are terms.  All constructors normalise,
so two expressions that denote the same function of the inputs by the rules below
are the same Python object."""
import sys
sys.setrecursionlimit(200000)


class T:
    __slots__ = ("op", "args", "id", "ty", "weak", "aid", "nest", "bound", "__weakref__")

    def __repr__(self):
        return show(self)


_terms = {}
_next_atom = [0]


def t(op, *args, ty=None, weak=False):
    k = (op,) + tuple((x.__class__, x) if isinstance(x, (bool, int)) else x for x in args)
    r = _terms.get(k)
    if r is None:
        r = T()
        r.op, r.args, r.id, r.ty, r.aid = op, args, len(_terms), ty, None
        w = weak or op in WEAK
        nest = 0
        bound = False
        for a in ([z for z, _ in args[1]] if op == "lin" else args):
            if a.__class__ is T or a.__class__ is N:
                w = w or a.weak
                if a.nest > nest:
                    nest = a.nest
                bound = bound or a.bound
        if op in BINDERS:
            nest += 1
        if op == "elem" or op == "phi":
            bound = True
        r.weak, r.nest, r.bound = w, nest, bound
        _terms[k] = r
    if ty is not None and r.ty is None:
        r.ty = ty
    return r


WEAK = {"unk", "gloop"}
BINDERS = {"any", "first", "last", "sum", "cmap", "lmap", "twhile", "filt", "gloop", "sortby", "mfold"}


class N:
    __slots__ = ("atom", "hi", "lo", "leaf", "id", "weak", "nest", "bound", "ord", "size")

    def __repr__(self):
        return shown(self)


_nodes = {}
_leaves = {}


def leaf(x):
    r = _leaves.get(x)
    if r is None:
        r = N()
        r.atom = r.hi = r.lo = None
        r.leaf = x
        r.id = len(_leaves) + len(_nodes)
        r.weak, r.nest, r.bound = x.weak, x.nest, x.bound
        r.ord = 1 << 60
        r.size = 1
        _leaves[x] = r
    return r


def _order(a):
    if a.aid is None:
        a.aid = _next_atom[0]
        _next_atom[0] += 1
    return a.aid


def _eta(x, h, l):
    """Some of what x holds where it holds something, None elsewhere: that is x"""
    if h.op != "mk" or l.op != "mk" or l.args[1] != "None" or h.args[1] != "Some":
        return False
    p = h.args[-1]
    return p.__class__ is T and p.op == "pay" and p.args[0] is x and p.args[1] == "Some"


def mk(a, hi, lo):
    if hi is lo:
        return hi
    k = (a, hi, lo)
    r = _nodes.get(k)
    if r is None and a.op == "is" and a.args[1] == "Some" and hi.atom is None and lo.atom is None and _eta(a.args[0], hi.leaf, lo.leaf):
        r = _nodes[k] = leaf(a.args[0])
    if r is None:
        r = N()
        r.atom, r.hi, r.lo, r.leaf = a, hi, lo, None
        r.id = len(_leaves) + len(_nodes)
        r.weak = a.weak or hi.weak or lo.weak
        r.nest = max(a.nest, hi.nest, lo.nest)
        r.bound = a.bound or hi.bound or lo.bound
        r.ord = _order(a)
        r.size = hi.size + lo.size + 1
        _nodes[k] = r
    return r


def c(v):
    return t("c", v)


def cn(v):
    return leaf(c(v))


TT = c(True)
FF = c(False)
TRUE = leaf(TT)
FALSE = leaf(FF)


def var(a):
    if a is TT:
        return TRUE
    if a is FF:
        return FALSE
    return mk(a, TRUE, FALSE)


_ite = {}


def _cof(n, a, b):
    if n.atom is a:
        return n.hi if b else n.lo
    return n


def ite(g, x, y):
    if g is TRUE:
        return x
    if g is FALSE:
        return y
    if x is y:
        return x
    if x is TRUE and y is FALSE:
        return g
    k = (g, x, y)
    r = _ite.get(k)
    if r is not None:
        return r
    if g.atom is None:
        raise AssertionError("a term in place of a condition: %s" % show(g.leaf)[:300])
    o = min(g.ord, x.ord, y.ord)
    a = g.atom if g.ord == o else (x.atom if x.ord == o else y.atom)
    r = mk(a, ite(_cof(g, a, 1), _cof(x, a, 1), _cof(y, a, 1)), ite(_cof(g, a, 0), _cof(x, a, 0), _cof(y, a, 0)))
    _ite[k] = r
    return r


def AND(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r


def OR(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def NOT(x):
    return ite(x, FALSE, TRUE)


def IFF(a, b):
    return ite(a, b, NOT(b))


class TooBig(Exception):
    pass


APPLY_CAP = 4000


def apply(fn, *ns):
    """distributes fn (a function of leaf terms returning a node) over the gates of ns"""
    if all(n.atom is None for n in ns):
        return fn(*[n.leaf for n in ns])
    memo = {}

    def go(ns):
        r = memo.get(ns)
        if r is not None:
            return r
        if len(memo) > APPLY_CAP:
            raise TooBig()
        o = min(n.ord for n in ns)
        if o == 1 << 60:
            r = fn(*[n.leaf for n in ns])
        else:
            a = next(n.atom for n in ns if n.ord == o)
            h = go(tuple(_cof(n, a, 1) for n in ns))
            l = go(tuple(_cof(n, a, 0) for n in ns))
            r = h if h is l else ite(var(a), h, l)
        memo[ns] = r
        return r

    return go(tuple(ns))


_restr = {}


def restrict(n, care):
    """some node that agrees with n wherever care holds"""
    if care is TRUE or n.atom is None:
        return n
    if care is FALSE:
        return n
    k = (n, care)
    r = _restr.get(k)
    if r is not None:
        return r
    if care.ord < n.ord:
        r = restrict(n, ite(care.hi, TRUE, care.lo))
    else:
        a = n.atom
        if care.atom is a:
            if care.hi is FALSE:
                r = restrict(n.lo, care.lo)
            elif care.lo is FALSE:
                r = restrict(n.hi, care.hi)
            else:
                r = mk(a, restrict(n.hi, care.hi), restrict(n.lo, care.lo))
        else:
            r = mk(a, restrict(n.hi, care), restrict(n.lo, care))
    _restr[k] = r
    return r


def leaves(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.atom is None:
            out.append(x.leaf)
        else:
            st.append(x.lo)
            st.append(x.hi)
    return out


def atoms(n):
    seen, out, st = set(), [], [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.atom is not None:
            out.append(x.atom)
            st.append(x.lo)
            st.append(x.hi)
    return list(dict.fromkeys(out))


def cond_of(n, pred):
    """node: true exactly where the leaf satisfies pred"""
    return apply(lambda x: TRUE if pred(x) else FALSE, n)


def subterms(x, seen=None):
    """all terms below x (a T or N), through embedded nodes"""
    seen = set() if seen is None else seen
    st = [x]
    while st:
        y = st.pop()
        if y in seen:
            continue
        seen.add(y)
        if y.__class__ is T:
            st.extend(a for a in y.args if a.__class__ is T or a.__class__ is N)
            if y.op == "lin":
                st.extend(a for a, _ in y.args[1])
        else:
            if y.atom is None:
                st.append(y.leaf)
            else:
                st.extend((y.atom, y.hi, y.lo))
    return [y for y in seen if y.__class__ is T]


def show(x, d=0):
    if x.__class__ is N:
        return shown(x, d)
    if x.__class__ is not T:
        return repr(x) if not isinstance(x, str) else x
    if d > 14:
        return "..."
    if x.op == "c":
        return repr(x.args[0])
    if x.op == "lin":
        k, ts = x.args
        s = "+".join(("%d*" % co if co != 1 else "") + show(tm, d + 1) for tm, co in ts)
        return "(%s%+d)" % (s, k) if k else "(%s)" % s
    if x.op == "fld":
        return "%s.%s" % (show(x.args[0], d + 1), x.args[1])
    if x.op == "arg":
        return str(x.args[0])
    return "%s(%s)" % (x.op, ", ".join(show(a, d + 1) for a in x.args))


def shown(n, d=0):
    if n.atom is None:
        return show(n.leaf, d)
    if d > 14:
        return "..."
    if n.hi is TRUE and n.lo is FALSE:
        return show(n.atom, d + 1)
    if n.hi is FALSE and n.lo is TRUE:
        return "!" + show(n.atom, d + 1)
    return "{%s ? %s : %s}" % (show(n.atom, d + 1), shown(n.hi, d + 1), shown(n.lo, d + 1))


# ---------------------------------------------------------------- integers
def lin_parts(x):
    if x.op == "c":
        return int(x.args[0]), {}
    if x.op == "lin":
        return x.args[0], dict(x.args[1])
    return 0, {x: 1}


def mk_lin(k, d):
    d = {a: co for a, co in d.items() if co}
    if not d:
        return c(k)
    if k == 0 and len(d) == 1:
        a, co = next(iter(d.items()))
        if co == 1:
            return a
    parts = tuple(sorted(d.items(), key=lambda p: p[0].id))
    return t("lin", k, parts)


def add(x, y, sx=1, sy=1):
    kx, dx = lin_parts(x)
    ky, dy = lin_parts(y)
    d = {a: co * sx for a, co in dx.items()}
    for a, co in dy.items():
        d[a] = d.get(a, 0) + sy * co
    return mk_lin(sx * kx + sy * ky, d)


def mulc(x, k):
    a, d = lin_parts(x)
    return mk_lin(a * k, {z: co * k for z, co in d.items()})


def low(x):
    """static lower bound of an atom of a linear form, or None"""
    if x.op == "len" and x.args[0].op == "itoa":
        return 1
    if x.op in ("len", "sum", "find", "rfind", "ms", "me", "ch", "byte", "plen", "utf8len", "count", "index", "idxof", "pos"):
        return 0
    if x.op == "elem" and x.ty is not None and kind(x.ty) == "char":
        return 0
    if x.ty is not None and getattr(x.ty, "k", None) == "uint":
        return 0
    return None


def kind(ty):
    return getattr(ty, "k", ty)


def ge0(x):
    """node for x >= 0"""
    k, d = lin_parts(x)
    if not d:
        return TRUE if k >= 0 else FALSE
    from math import gcd
    g = 0
    for co in d.values():
        g = gcd(g, abs(co))
    if g > 1:
        d = {a: co // g for a, co in d.items()}
        k = k // g  # floor: sum*g + k >= 0 <=> sum >= -k/g <=> sum >= ceil(-k/g)
    lo = 0
    for a, co in d.items():
        b = low(a)
        if co > 0 and b is not None:
            lo += co * b
        else:
            lo = None
            break
    if lo is not None and lo + k >= 0:
        return TRUE
    hi = 0
    for a, co in d.items():
        b = low(a)
        if co < 0 and b is not None:
            hi += co * b
        else:
            hi = None
            break
    if hi is not None and hi + k < 0:
        return FALSE
    parts = tuple(sorted(d.items(), key=lambda p: p[0].id))
    if parts[0][1] < 0:
        # -(S) + k >= 0  <=>  S <= k  <=> !(S >= k+1)
        s = mk_lin(0, {a: -co for a, co in d.items()})
        return NOT(mkge(s, k + 1))
    s = mk_lin(0, d)
    return mkge(s, -k)


def high(x):
    """static upper bound of an atom by its type, or None"""
    s = getattr(x.ty, "s", None)
    if isinstance(s, str) and s[:1] == "u" and s[1:].isdigit():
        return (1 << int(s[1:])) - 1
    return None


def mkge(s, m):
    """node for s >= m (s without constant part)"""
    if s.op == "div" and s.args[1].op == "c" and kind(s.ty) == "uint" and m >= 1:
        return ge0(add(s.args[0], c(m * s.args[1].args[0]), 1, -1))
    if s.op != "lin":
        h = high(s)
        if h is not None and m > h:
            return FALSE
    if s.op == "len" and s.args[0].op == "itoa" and 1 <= m <= 21 and kind(s.args[0].args[0].ty) == "uint":
        return ge0(add(s.args[0].args[0], c(10 ** (m - 1)), 1, -1)) if m > 1 else TRUE
    if s.op in GERULES:
        r = GERULES[s.op](s, m)
        if r is not None:
            return r
    return var(t("ge", s, m))


GERULES = {}


def lt(x, y):
    return NOT(ge0(add(x, y, 1, -1)))


def le(x, y):
    return ge0(add(y, x, 1, -1))


EQRULES = []


def eq(x, y):
    """node for x == y (scalars: ints, chars, strings, opaque)"""
    if x is y:
        return TRUE
    if x.op == "c" and y.op == "c":
        return TRUE if x.args[0] == y.args[0] and type(x.args[0]) == type(y.args[0]) else FALSE
    for r in EQRULES:
        z = r(x, y)
        if z is not None:
            return z
    if "lin" in (x.op, y.op) or (y.op == "c" and isinstance(y.args[0], int)) or (x.op == "c" and isinstance(x.args[0], int)):
        d = add(x, y, 1, -1)
        k, dd = lin_parts(d)
        if not dd:
            return TRUE if k == 0 else FALSE
        from math import gcd
        g = 0
        for co in dd.values():
            g = gcd(g, abs(co))
        if k % g:
            return FALSE
        dd = {a: co // g for a, co in dd.items()}
        k //= g
        parts = sorted(dd.items(), key=lambda p: p[0].id)
        if parts[0][1] < 0:
            dd = {a: -co for a, co in dd.items()}
            k = -k
        s = mk_lin(0, dd)
        if s.op != "lin":
            b = low(s)
            if b is not None and -k < b:
                return FALSE
            if b is not None and -k == b:
                return NOT(mkge(s, b + 1))
            if s.op == "div" and s.args[1].op == "c" and kind(s.ty) == "uint":
                return AND(mkge(s, -k), NOT(mkge(s, -k + 1)))
        return var(t("eq", s, c(-k)))
    if x.op == "c" or (y.op != "c" and x.id > y.id):
        x, y = y, x
    return var(t("eq", x, y))
