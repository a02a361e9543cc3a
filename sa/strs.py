"""Normalising constructors for strings, sequences and patterns (leaf terms -> nodes)."""
from .vals import *
from . import term as _t

CONS = {}


def cons(op):
    def d(f):
        CONS[op] = f
        return f
    return d


def isc(x, cls=str):
    return x.op == "c" and isinstance(x.args[0], cls)


# ------------------------------------------------------------- lengths
def slen(x):
    """byte length of a string / element count of a sequence: term"""
    o = x.op
    if o == "c" and isinstance(x.args[0], str):
        return c(len(x.args[0].encode("utf8")))
    if o == "cat" or o == "lcat":
        r = c(0)
        for p in x.args:
            r = add(r, slen(p))
        return r
    if o == "chr":
        return utf8len(x.args[0])
    if o == "list":
        return c(len(x.args))
    if o == "sort":
        return slen(x.args[0])
    if o == "slice":
        return add(x.args[2], x.args[1], 1, -1)
    if o in ("items", "bytes"):
        return slen(x.args[0])
    if o == "rev":
        return slen(x.args[0])
    if o == "repeat":
        n = lin_parts(slen(x.args[0]))
        if not n[1]:
            return mulc(x.args[1], n[0])
    return t("len", x)


def utf8len(ch):
    if ch.op == "c":
        return c(len(chr(ch.args[0]).encode("utf8")))
    return t("utf8len", ch)


def nonempty(x):
    if x.op == "itoa":
        return TRUE
    if x.op in ("cat", "lcat"):
        r = FALSE
        for p in x.args:
            r = OR(r, nonempty(p))
        return r
    if x.op in ("chars", "items", "rev", "bytes"):
        return nonempty(x.args[0])
    if x.op == "chr":
        return TRUE
    if x.op == "first_of":
        return TRUE
    if x.op == "twhile":
        from . import loops
        return loops.starts_with_one(x)
    l = slen(x)
    if l.op == "lin" and x.op == "slice":
        return ge0(add(l, c(1), 1, -1))
    return ge0(add(l, c(1), 1, -1))


@cons("len")
def _len(x):
    return leaf(slen(x))


@cons("utf8len")
def _ul(x):
    return leaf(utf8len(x))


# ------------------------------------------------------------- concatenation
def chrt(ch):
    if ch.op == "c":
        return c(chr(ch.args[0]))
    return t("chr", ch)


def cat(*ps):
    out = []
    for p in ps:
        for q in (p.args if p.op == "cat" else (p,)):
            if q.op == "c" and q.args[0] == "":
                continue
            if out and q.op == "c" and out[-1].op == "c":
                out[-1] = c(out[-1].args[0] + q.args[0])
            elif out and q.op == "slice" and out[-1].op == "slice" and q.args[0] is out[-1].args[0] and q.args[1] is out[-1].args[2]:
                z = sslice(q.args[0], out[-1].args[1], q.args[2])
                out[-1] = z
            else:
                out.append(q)
    if not out:
        return c("")
    if len(out) == 1:
        return out[0]
    return t("cat", *out)


def lcat(*ps):
    out = []
    for p in ps:
        for q in (p.args if p.op == "lcat" else (p,)):
            if q.op == "list" and not q.args:
                continue
            if out and q.op == "list" and out[-1].op == "list":
                out[-1] = t("list", *(out[-1].args + q.args))
            else:
                out.append(q)
    if not out:
        return t("list")
    if len(out) == 1:
        return out[0]
    return t("lcat", *out)


CONS["cat"] = lambda *p: leaf(cat(*p))
CONS["lcat"] = lambda *p: leaf(lcat(*p))
CONS["chr"] = lambda x: leaf(chrt(x))


def itoa(x):
    if x.op == "c":
        return c(str(int(x.args[0])))
    if x.op == "atoi_ok":
        pass
    return t("itoa", x)


CONS["itoa"] = lambda x: leaf(itoa(x))


def zero(x):
    return x.op == "c" and x.args[0] == 0 and x.args[0] is not False


def ge0s(x):
    """statically x >= 0?"""
    return ge0(x) is TRUE


def sslice(x, i, j):
    """x[i..j] (terms)"""
    L = slen(x)
    if i.op == "pos" and i.args[1] is x and j is add(i, utf8len(i.args[0])):
        return CONS["chr"](i.args[0]).leaf
    if i is j and x.op != "list":
        if zero(i) or True:
            return c("") if not is_seq(x) else t("list")
    if zero(i) and j is L:
        return x
    if isc(x) and i.op == "c" and j.op == "c":
        b = x.args[0].encode("utf8")
        try:
            return c(b[i.args[0]:j.args[0]].decode("utf8"))
        except UnicodeDecodeError:
            return t("unk", "badslice", x, i, j, weak=True)
    if x.op == "list" and i.op == "c" and j.op == "c":
        return t("list", *x.args[i.args[0]:j.args[0]])
    if x.op == "slice":
        b = x.args[1]
        return sslice(x.args[0], add(b, i), add(b, j))
    if x.op in ("cat", "lcat"):
        mkc = cat if x.op == "cat" else lcat
        ps = list(x.args)
        # drop whole parts in front
        while ps:
            l = slen(ps[0])
            if ge0s(add(i, l, 1, -1)) and len(ps) > 0 and (i is not c(0) or zero(l)):
                i, j = add(i, l, 1, -1), add(j, l, 1, -1)
                ps.pop(0)
                continue
            break
        if not ps:
            return c("") if x.op == "cat" else t("list")
        # drop whole parts at the end
        tot = c(0)
        for p in ps:
            tot = add(tot, slen(p))
        while ps:
            l = slen(ps[-1])
            rest = add(tot, l, 1, -1)
            if ge0s(add(rest, j, 1, -1)) and not (zero(l) and j is tot):
                ps.pop()
                tot = rest
                continue
            break
        if not ps:
            return c("") if x.op == "cat" else t("list")
        # cut inside the first part
        if len(ps) > 1 or not (zero(i) and j is tot):
            if len(ps) > 1 and not zero(i) and ge0s(add(slen(ps[0]), i, 1, -1)):
                h = sslice(ps[0], i, slen(ps[0]))
                l0 = slen(ps[0])
                rest = sslice(mkc(*ps[1:]), c(0), add(j, l0, 1, -1)) if ge0s(add(j, l0, 1, -1)) else None
                if rest is not None:
                    return mkc(h, rest)
            if len(ps) > 1 and zero(i):
                pre = c(0)
                for p in ps[:-1]:
                    pre = add(pre, slen(p))
                if ge0s(add(j, pre, 1, -1)):
                    return mkc(*(ps[:-1] + [sslice(ps[-1], c(0), add(j, pre, 1, -1))]))
        x2 = mkc(*ps)
        if zero(i) and j is slen(x2):
            return x2
        if x2.op not in ("cat", "lcat"):
            return sslice(x2, i, j)
        return t("slice", x2, i, j)
    return t("slice", x, i, j, ty=x.ty)


def is_seq(x):
    return x.op in ("list", "lcat", "sort", "lmap") or (x.ty is not None and getattr(x.ty, "k", "") == "seq")


CONS["slice"] = lambda x, i, j: leaf(sslice(x, i, j))


# ------------------------------------------------------------- characters of a string
def chfirst(s):
    if isc(s) and s.args[0]:
        return c(ord(s.args[0][0]))
    if s.op == "cat" and nonempty(s.args[0]) is TRUE:
        return chfirst(s.args[0])
    if s.op == "chr":
        return s.args[0]
    return t("ch", s, "first")


def chlast(s):
    if isc(s) and s.args[0]:
        return c(ord(s.args[0][-1]))
    if s.op == "cat" and nonempty(s.args[-1]) is TRUE:
        return chlast(s.args[-1])
    if s.op == "chr":
        return s.args[0]
    return t("ch", s, "last")


CONS["ch"] = lambda s, w: leaf(chfirst(s) if w == "first" else chlast(s))


# a pattern for searching is ('c' str) | any string term | t('pset', chars...) | t('ppred', N, n)
def pat_is_char(p):
    return isc(p) and len(p.args[0]) == 1


def starts(s, p):
    if isc(p) and p.args[0] == "":
        return TRUE
    if isc(s) and isc(p):
        return TRUE if s.args[0].startswith(p.args[0]) else FALSE
    if p.op == "pset":
        return AND(nonempty(s), OR(*[eq(chfirst(s), c(ord(x))) for x in p.args[0]]))
    if p.op == "chr":
        return AND(nonempty(s), eq(chfirst(s), p.args[0]))
    if isc(p):
        if s.op == "cat" and isc(s.args[0]):
            a, b = s.args[0].args[0], p.args[0]
            if a.startswith(b):
                return TRUE
            if b.startswith(a):
                return starts(cat(*s.args[1:]), c(b[len(a):]))
            return FALSE
        if len(p.args[0]) == 1:
            return AND(nonempty(s), eq(chfirst(s), c(ord(p.args[0]))))
        if s.op == "chr":
            return FALSE
    if s is p:
        return TRUE
    if s.op == "cat" and (s.args[0] is p or p.op == "cat" and s.args[:len(p.args)] == p.args):
        return TRUE
    if s.op == "cat" and p.op == "cat":
        n = 0
        while n < min(len(s.args), len(p.args)) and s.args[n] is p.args[n]:
            n += 1
        if n:
            return starts(cat(*s.args[n:]), cat(*p.args[n:]))
    if isc(s) and len(s.args[0]) <= 24:
        return OR(*[eq(p, c(s.args[0][:i])) for i in range(len(s.args[0]) + 1)])
    return var(t("starts", s, p))


def ends(s, p):
    if isc(p) and p.args[0] == "":
        return TRUE
    if isc(s) and isc(p):
        return TRUE if s.args[0].endswith(p.args[0]) else FALSE
    if p.op == "pset":
        return AND(nonempty(s), OR(*[eq(chlast(s), c(ord(x))) for x in p.args[0]]))
    if p.op == "chr":
        return AND(nonempty(s), eq(chlast(s), p.args[0]))
    if isc(p):
        if s.op == "cat" and isc(s.args[-1]):
            a, b = s.args[-1].args[0], p.args[0]
            if a.endswith(b):
                return TRUE
            if b.endswith(a):
                return ends(cat(*s.args[:-1]), c(b[:len(b) - len(a)]))
            return FALSE
        if len(p.args[0]) == 1:
            return AND(nonempty(s), eq(chlast(s), c(ord(p.args[0]))))
    if s is p:
        return TRUE
    if s.op == "cat" and s.args[-1] is p:
        return TRUE
    if isc(s) and len(s.args[0]) <= 24:
        return OR(*[eq(p, c(s.args[0][i:])) for i in range(len(s.args[0]) + 1)])
    return var(t("ends", s, p))


def has(s, p):
    if isc(p) and p.args[0] == "":
        return TRUE
    if isc(s) and isc(p):
        return TRUE if p.args[0] in s.args[0] else FALSE
    if isc(p) and s.op == "cat" and any(isc(q) and p.args[0] in q.args[0] for q in s.args):
        return TRUE
    return var(t("has", s, p))


def find(s, p):
    if isc(s) and isc(p) and p.args[0] in s.args[0]:
        return c(len(s.args[0][:s.args[0].index(p.args[0])].encode("utf8")))
    if isc(p) and s.op == "cat" and isc(s.args[0]) and p.args[0] in s.args[0].args[0]:
        a = s.args[0].args[0]
        return c(len(a[:a.index(p.args[0])].encode("utf8")))
    return t("find", s, p)


CONS["starts"] = starts
CONS["ends"] = ends
CONS["has"] = has
CONS["find"] = lambda s, p: leaf(find(s, p))
CONS["rfind"] = lambda s, p: leaf(t("rfind", s, p))
CONS["eq"] = lambda a, b: eq(a, b)
CONS["ge"] = lambda a, b: ge0(add(a, c(b) if isinstance(b, int) else b, 1, -1))


def lin_cons(x, sub):
    """rebuilds a linear form with substituted atoms (sub: T -> N)"""
    k, d = x.args
    ns = [sub(a) for a, _ in d]

    def f(*ts):
        r = c(k)
        for y, (_, co) in zip(ts, d):
            r = add(r, mulc(y, co))
        return leaf(r)
    return apply(f, *ns)


def repeat(s, n):
    if isc(s) and s.args[0] == "":
        return c("")
    if n.op == "c":
        k = n.args[0]
        if k <= 0:
            return c("")
        if isc(s) and k < 200:
            return c(s.args[0] * k)
        if k == 1:
            return s
    return t("repeat", s, n)


CONS["repeat"] = lambda s, n: leaf(repeat(s, n))


def replace(s, p, r, n=None):
    """str::replace"""
    if isc(s) and isc(p) and isc(r) and p.args[0]:
        return c(s.args[0].replace(p.args[0], r.args[0]))
    if isc(s) and isc(p) and p.args[0] and p.args[0] not in s.args[0]:
        return s
    if isc(s) and isc(p) and p.args[0]:
        parts = s.args[0].split(p.args[0])
        out = [c(parts[0])]
        for q in parts[1:]:
            out += [r, c(q)]
        return cat(*out)
    if p is r:
        return s
    return t("replace", s, p, r)


CONS["replace"] = lambda s, p, r: leaf(replace(s, p, r))
CONS["upper"] = lambda x: leaf(c(ord(chr(x.args[0]).upper())) if x.op == "c" and x.args[0] < 128 else t("upper", x))
CONS["lower"] = lambda x: leaf(c(ord(chr(x.args[0]).lower())) if x.op == "c" and x.args[0] < 128 else t("lower", x))


# ------------------------------------------------------------- equality rules
def _eqstr(x, y):
    if isc(y, str) or isc(x, str):
        if isc(x, str):
            x, y = y, x
        v = y.args[0]
        if v == "":
            if x.op == "mk":
                return None
            return NOT(nonempty(x))
        if x.op == "itoa":
            return eq(x.args[0], c(int(v))) if v.lstrip("-").isdigit() and str(int(v)) == v else FALSE
        if x.op == "cat":
            a = x.args[0]
            if isc(a):
                return eq(cat(*x.args[1:]), c(v[len(a.args[0]):])) if v.startswith(a.args[0]) else FALSE
            b = x.args[-1]
            if isc(b):
                return eq(cat(*x.args[:-1]), c(v[:len(v) - len(b.args[0])])) if v.endswith(b.args[0]) else FALSE
        if x.op == "chr":
            return eq(x.args[0], c(ord(v))) if len(v) == 1 else FALSE
        if x.op == "repeat" and isc(x.args[0]):
            u = x.args[0].args[0]
            n = len(v) // len(u)
            return eq(x.args[1], c(n)) if u * n == v else FALSE
        return None
    if x.op == "itoa" and y.op == "itoa":
        return eq(x.args[0], y.args[0])
    if x.op == "chr" and y.op == "chr":
        return eq(x.args[0], y.args[0])
    if x.op == "cat" or y.op == "cat":
        xs = list(x.args) if x.op == "cat" else [x]
        ys = list(y.args) if y.op == "cat" else [y]
        ch = False
        while xs and ys and xs[0] is ys[0]:
            xs.pop(0)
            ys.pop(0)
            ch = True
        while xs and ys and xs[-1] is ys[-1]:
            xs.pop()
            ys.pop()
            ch = True
        if xs and ys and isc(xs[0]) and isc(ys[0]):
            a, b = xs[0].args[0], ys[0].args[0]
            n = min(len(a), len(b))
            if a[:n] != b[:n]:
                return FALSE
            if a == b:
                pass
            else:
                xs[0], ys[0] = c(a[n:]), c(b[n:])
                ch = True
        if ch:
            return eq(cat(*xs), cat(*ys))
    return None


def _eqmk(x, y):
    if x.op == "mk" and y.op == "mk":
        if x.args[1] != y.args[1]:
            return FALSE
        a = {x.args[i]: x.args[i + 1] for i in range(2, len(x.args), 2)}
        b = {y.args[i]: y.args[i + 1] for i in range(2, len(y.args), 2)}
        if set(a) != set(b):
            return None
        return AND(*[eq(a[k], b[k]) for k in a])
    if x.op == "list" and y.op == "list":
        if len(x.args) != len(y.args):
            return FALSE
        return AND(*[eq(a, b) for a, b in zip(x.args, y.args)])
    if y.op == "list":
        x, y = y, x
    if x.op == "list" and (y.op in ("sort", "lcat") or y.ty is not None and y.ty.k == "seq"):
        r = eq(slen(y), c(len(x.args)))
        for i, z in enumerate(x.args):
            r = AND(r, apply(lambda p: eq(p, z), CONS["at"](y, c(i))))
        return r
    if y.op == "mk":
        x, y = y, x
    if x.op == "mk" and is_enum(y.ty):
        if len(x.args) == 2:
            d = discr_of_term(y, y.ty)
            return cond_of(d, lambda z: z.op == "c" and z.args[0] == x.args[1])
        d = cond_of(discr_of_term(y, y.ty), lambda z: z.op == "c" and z.args[0] == x.args[1])
        r = d
        for i in range(2, len(x.args), 2):
            r = AND(r, apply(lambda p: eq(p, x.args[i + 1]), mkpay(y, x.args[1], x.args[i])))
        return r
    if x.op == "mk" and is_struct(y.ty):
        r = TRUE
        for i in range(2, len(x.args), 2):
            r = AND(r, apply(lambda p: eq(p, x.args[i + 1]), mkfld(y, x.args[i])))
        return r
    return None


EQRULES.append(_eqmk)
EQRULES.append(_eqstr)
