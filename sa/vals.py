"""Types and store-level values (structs, enums, lists, iterators) over gated terms."""
from .term import *

TRANSPARENT = {"Box", "BoxRaw", "Unique", "NonNull", "Arc", "Rc", "MessageField", "Cow", "EnumOrUnknown", "ManuallyDrop", "Pin",
               "Ref", "MaybeUninit"}


class Ty:
    __slots__ = ("k", "s", "name", "variants", "sub", "raw", "fields", "vorder", "discr")

    def __repr__(self):
        return "<%s>" % self.s


_tys = {}


def short(name):
    """last path segment of a type or function name, generics removed"""
    out, depth = [], 0
    for i, ch in enumerate(name):
        if ch == "<":
            depth += 1
        elif ch == ">":
            if name[i - 1] != "-":
                depth -= 1
        elif depth == 0:
            out.append(ch)
    return "".join(out).rstrip(":").split("::")[-1]


class Types:
    """types of one dump, mapped to the global Ty objects"""

    def __init__(self, d):
        self.raw = d["types"]
        self.cache = {}

    def get(self, i):
        r = self.cache.get(i)
        if r is None:
            r = self._make(i)
            self.cache[i] = r
        return r

    def _intern(self, s, k, **kw):
        r = _tys.get(s)
        if r is None:
            r = Ty()
            r.k, r.s = k, s
            r.name = kw.get("name")
            r.sub = kw.get("sub")
            r.variants = None
            r.raw = None
            r.fields = None
            _tys[s] = r
        return r

    def _make(self, i):
        x = self.raw[i]
        k = x["k"]
        if k == "ref":
            if x["mut"]:
                sub = self.get(x["t"])
                return self._intern("&mut " + sub.s, "mut", sub=sub)
            return self.get(x["t"])
        if k == "ptr":
            return self.get(x["t"])
        if k in ("bool", "char", "never"):
            return self._intern(k, k)
        if k in ("int", "uint"):
            return self._intern(x["s"], k)
        if k == "str":
            return self._intern("str", "str")
        if k in ("slice", "array"):
            sub = self.get(x["t"])
            return self._intern("[%s]" % sub.s, "seq", sub=sub)
        if k == "adt":
            n = x["name"].split("::")[-1]
            args = [a for a in x.get("args", []) if isinstance(a, int)]
            if n == "String":
                return self._intern("str", "str")
            if n in TRANSPARENT and args:
                return self.get(args[0])
            if n in ("Vec", "VecDeque"):
                sub = self.get(args[0])
                return self._intern("[%s]" % sub.s, "seq", sub=sub)
            if n in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "DashMap"):
                return self._intern(n + "<" + ",".join(self.get(a).s for a in args[:2]) + ">", "map")
            s = n + ("<" + ",".join(self.get(a).s for a in args) + ">" if args else "")
            if n in ("PhoneNumberUtilInternal", "PhoneNumberUtil") and x["name"].startswith("vspec"):
                s = "vspec::" + s
            r = _tys.get(s)
            if r is None:
                r = self._intern(s, "adt", name=n)
                r.sub = x["kind"]
                r.raw = (self, x)
            return r
        if k == "tuple":
            subs = [self.get(a) for a in x["ts"]]
            r = self._intern("(" + ",".join(y.s for y in subs) + ")", "tuple")
            r.fields = {str(n): y for n, y in enumerate(subs)}
            return r
        if k == "closure":
            return self._intern("closure " + x["name"], "closure")
        return self._intern(k + " " + x.get("s", ""), "other")


def layout(ty):
    """adt -> {variant: {field: Ty}} in declaration order"""
    if ty.variants is None:
        ts, x = ty.raw
        ty.variants = {v["name"]: {f[0]: ts.get(f[1]) for f in v["fields"] if f[0] != "special_fields"} for v in x["variants"]}
        ty.discr = {v["name"]: int(v["discr"]) for v in x["variants"]}
    return ty.variants


def is_enum(ty):
    return ty is not None and ty.k == "adt" and ty.sub == "enum"


def is_struct(ty):
    return ty is not None and (ty.k == "tuple" or ty.k == "adt" and ty.sub != "enum")


def fields_of(ty):
    if ty.k == "tuple":
        return ty.fields
    return next(iter(layout(ty).values()))


# ------------------------------------------------------------------ values
class Agg:
    __slots__ = ("ty", "f", "inst")

    def __init__(self, ty, f, inst=None):
        self.ty, self.f, self.inst = ty, f, inst

    def __repr__(self):
        return "%s{%s}" % (self.ty.s if self.ty else "?", ", ".join("%s: %r" % p for p in self.f.items()))


class Enum:
    __slots__ = ("ty", "d", "p")

    def __init__(self, ty, d, p):
        self.ty, self.d, self.p = ty, d, p

    def __repr__(self):
        return "%s[%r]%r" % (self.ty.s, self.d, self.p)


class ListV:
    __slots__ = ("items", "ty")

    def __init__(self, items, ty=None):
        self.items, self.ty = tuple(items), ty

    def __repr__(self):
        return "list%r" % (self.items,)


class MapV:
    """a map or set with constant keys"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __repr__(self):
        return "map(%d)" % len(self.d)


class IterV:
    """src: ('list', items) | ('seq', N, elemty) | ('chars', N) | ('range', N, N) ...; stages: (op, closure)"""
    __slots__ = ("src", "rev", "stages")

    def __init__(self, src, rev=False, stages=()):
        self.src, self.rev, self.stages = src, rev, stages

    def __repr__(self):
        return "iter(%r%s%r)" % (self.src, " rev" if self.rev else "", [s[0] for s in self.stages])


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()
_unk = [0]


def unk(why, *args, ty=None):
    """an unmodelled value; deterministic in its arguments"""
    return leaf(t("unk", why, *args, ty=ty, weak=True))


def fresh_unk(why, ty=None):
    _unk[0] += 1
    return leaf(t("unk", why, _unk[0], ty=ty, weak=True))


def mkfld(x, f, ty=None):
    """node of field f of the struct term x"""
    if x.op == "mk":
        for i in range(2, len(x.args), 2):
            if x.args[i] == f:
                return opaque(x.args[i + 1], ty)
        return unk("nofield:" + f, x, ty=ty)
    if x.op == "undef":
        return FALSE if ty is not None and ty.k == "bool" else UNDEFN
    return opaque(t("fld", x, f, ty=ty), ty)


def mkpay(x, vn, f, ty=None):
    if x.op == "mk":
        for i in range(2, len(x.args), 2):
            if x.args[1] == vn and x.args[i] == f:
                return opaque(x.args[i + 1], ty)
    if x.op in ("mk", "undef"):
        return FALSE if ty is not None and ty.k == "bool" else UNDEFN
    return opaque(t("pay", x, vn, f, ty=ty), ty)


UNDEFN = leaf(t("undef"))


def opaque(x, ty):
    if ty is not None and ty.k == "bool" and x.op != "c":
        return var(x)
    return leaf(x)


def mkterm(tyname, variant, fields):
    """a constructed struct/enum term; fields: ((name, T)...)"""
    r = t("mk", tyname, variant, *[z for p in fields for z in p])
    # eta
    if fields:
        if variant == "" and all(v.op == "fld" and v.args[1] == n for n, v in fields):
            b = fields[0][1].args[0]
            if all(v.args[0] is b for _, v in fields) and b.ty is not None and b.ty.s == tyname:
                return b
    return r


def vnames(ty):
    return sorted(layout(ty))


def discr_of_term(x, ty):
    """node over variant-name constants"""
    if x.op == "mk":
        return cn(x.args[1])
    if x.op == "undef":
        return cn(vnames(ty)[0])
    ns = vnames(ty)
    r = cn(ns[0])
    for n in reversed(ns[1:]):
        r = ite(isatom(x, n, ty), cn(n), r)
    return r


ISRULES = []


def isatom(x, n, ty):
    for r in ISRULES:
        z = r(x, n, ty)
        if z is not None:
            return z
    a = t("is", x, n)
    if a.ty is None:
        a.ty = ty
    return var(a)


def discr(v, ty=None):
    if isinstance(v, Enum):
        return v.d
    if isinstance(v, N):
        return apply(lambda x: discr_of_term(x, x.ty if is_enum(x.ty) else ty), v)
    return unk("discr")


def payload(v, vn, f, fty=None):
    if isinstance(v, Enum):
        p = v.p.get(vn)
        if p is None or f not in p:
            return UNDEF
        return p[f]
    if isinstance(v, N):
        return apply(lambda x: mkpay(x, vn, f, fty), v)
    return unk("payload")


def field(v, f, fty=None):
    if isinstance(v, Agg):
        r = v.f.get(f)
        return UNDEF if r is None else r
    if isinstance(v, N):
        return apply(lambda x: mkfld(x, f, fty), v)
    if v is UNDEF:
        return UNDEF
    return unk("field:" + f)


def expand(v, ty):
    """a term-valued struct or enum as Agg/Enum"""
    if isinstance(v, N):
        if is_struct(ty):
            return Agg(ty, {n: field(v, n, ft) for n, ft in fields_of(ty).items()})
        if is_enum(ty):
            return Enum(ty, discr(v, ty), {vn: {n: payload(v, vn, n, ft) for n, ft in fs.items()} for vn, fs in layout(ty).items() if fs})
    return v


def enumv(ty, vn, **fs):
    return Enum(ty, cn(vn), {vn: dict(fs)} if fs else {})


def cases(v, ty=None):
    """enum value -> [(variant, condition)]"""
    d = discr(v, ty)
    out = []
    for n in {x.args[0] if x.op == "c" else None for x in leaves(d)}:
        if n is not None:
            out.append((n, cond_of(d, lambda x: x.op == "c" and x.args[0] == n)))
    return out


def isv(v, vn, ty=None):
    return apply(lambda x: TRUE if (x.op == "c" and x.args[0] == vn) else (FALSE if x.op == "c" else var(t("unk", "isv", x, weak=True))), discr(v, ty))


def merge(g, a, b, ty=None):
    """if g then a else b"""
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if g is TRUE:
        return a
    if g is FALSE:
        return b
    if a is UNDEFN:
        return b
    if b is UNDEFN:
        return a
    A, B = a.__class__, b.__class__
    if A is N and B is N:
        return ite(g, a, b)
    if A is N and (B is Agg or B is Enum):
        a = expand(a, b.ty)
        A = a.__class__
    elif B is N and (A is Agg or A is Enum):
        b = expand(b, a.ty)
        B = b.__class__
    if A is Agg and B is Agg:
        if a.inst != b.inst or a.f.keys() != b.f.keys():
            return Agg(None, {"?": enc(a), "??": enc(b)}, None) if False else fresh_unk("merge-closure")
        return Agg(a.ty, {k: merge(g, a.f[k], b.f[k]) for k in a.f}, a.inst)
    if A is Enum and B is Enum:
        p = {}
        for vn in list(a.p) + [x for x in b.p if x not in a.p]:
            pa, pb = a.p.get(vn), b.p.get(vn)
            if pa is None:
                p[vn] = pb
            elif pb is None:
                p[vn] = pa
            else:
                p[vn] = {k: merge(g, pa.get(k, UNDEF), pb.get(k, UNDEF)) for k in list(pa) + [k for k in pb if k not in pa]}
        return Enum(a.ty, ite(g, a.d, b.d), p)
    if A is ListV and B is ListV and len(a.items) == len(b.items):
        return ListV([merge(g, x, y) for x, y in zip(a.items, b.items)], a.ty)
    if A is MapV and B is MapV:
        return a if a.d == b.d else fresh_unk("merge-map")
    if A is IterV and B is IterV:
        if a.src[0] == b.src[0] and a.rev == b.rev and len(a.stages) == len(b.stages) and all(x[0] == y[0] and x[1] is y[1] for x, y in zip(a.stages, b.stages)):
            if a.src[0] == "list":
                if len(a.src[1]) == len(b.src[1]):
                    return IterV(("list", tuple(merge(g, x, y) for x, y in zip(a.src[1], b.src[1]))), a.rev, a.stages)
            elif all(isinstance(x, N) and isinstance(y, N) or x is y for x, y in zip(a.src[1:], b.src[1:])):
                return IterV((a.src[0],) + tuple(ite(g, x, y) if isinstance(x, N) else x for x, y in zip(a.src[1:], b.src[1:])), a.rev, a.stages)
        return fresh_unk("merge-iter")
    ea, eb = enc(a), enc(b)
    return ite(g, ea, eb)


def enc(v):
    """any value as a node (for arguments of opaque functions)"""
    C = v.__class__
    if C is N:
        return v
    if C is Agg:
        if v.inst is not None:
            return leaf(t("closure", v.inst, *[enc(x) for x in v.f.values()]))
        names = list(v.f)
        return apply(lambda *xs: leaf(mkterm(v.ty.s, "", tuple(zip(names, xs)))), *[enc(v.f[n]) for n in names]) if names else leaf(t("mk", v.ty.s, ""))
    if C is Enum:
        # eta for opaque enums
        e = eta_enum(v)
        if e is not None:
            return e
        def one(x):
            if x.op != "c":
                return leaf(t("unk", "discr", x, weak=True))
            vn = x.args[0]
            p = v.p.get(vn)
            if not p:
                return leaf(t("mk", v.ty.s, vn))
            names = list(p)
            return apply(lambda *xs: leaf(mkterm(v.ty.s, vn, tuple(zip(names, xs)))), *[enc(p[n]) for n in names])
        return apply(one, v.d)
    if C is ListV:
        return apply(lambda *xs: leaf(t("list", *xs)), *[enc(x) for x in v.items]) if v.items else leaf(t("list"))
    if C is IterV:
        s = [leaf(t("iter", v.src[0], v.rev))] + [enc(x) for x in v.src[1:] if not isinstance(x, (Ty, str, tuple))]
        if v.src[0] == "list":
            s += [enc(x) for x in v.src[1]]
        for op, cl in v.stages:
            s.append(leaf(t("stage", op)))
            if cl is not None and not isinstance(cl, Ty):
                s.append(enc(cl))
        return apply(lambda *xs: leaf(t("iterv", *xs)), *s)
    if C is MapV:
        return leaf(t("map", *[z for k, x in sorted(v.d.items(), key=lambda p: str(p[0])) for z in (k if isinstance(k, T) else c(k), enc(x) if x is not None else TRUE)]))
    return leaf(t("undef"))


def eta_enum(v):
    """Enum(discr(x), pay(x,..)) -> x"""
    xs = {a.args[0] for a in atoms(v.d) if a.op == "is"}
    if len(xs) != 1:
        return None
    x = next(iter(xs))
    if not is_enum(x.ty) or x.ty.s != v.ty.s:
        return None
    if discr_of_term(x, x.ty) is not v.d:
        return None
    for vn, fs in layout(v.ty).items():
        for f, ft in fs.items():
            p = v.p.get(vn, {}).get(f, UNDEF)
            if p is UNDEF:
                return None
            if enc(p) is not enc(opaque(t("pay", x, vn, f, ty=ft), ft)):
                return None
    return leaf(x)


def restrictv(v, care):
    C = v.__class__
    if C is N:
        return restrict(v, care) if v.size < 5000 else v
    if C is Agg:
        return Agg(v.ty, {k: restrictv(x, care) for k, x in v.f.items()}, v.inst)
    if C is Enum:
        return Enum(v.ty, restrict(v.d, care), {vn: {k: restrictv(x, care) for k, x in p.items()} for vn, p in v.p.items()})
    if C is ListV:
        return ListV([restrictv(x, care) for x in v.items], v.ty)
    return v


def _eq_option(x, y):
    """equality of options, by cases"""
    ty = x.ty if is_enum(x.ty) else y.ty
    if not is_enum(ty) or ty.name != "Option" or "mk" != x.op and not is_enum(x.ty) or "mk" != y.op and not is_enum(y.ty):
        return None
    ft = layout(ty)["Some"]["0"]
    dx, dy = isatom2(x, "Some", ty), isatom2(y, "Some", ty)
    px, py = enc(payload(leaf(x), "Some", "0", ft)), enc(payload(leaf(y), "Some", "0", ft))
    if ft is not None and ft.k == "bool":
        e = IFF(px, py)
    else:
        e = apply(eq, px, py)
    return OR(AND(dx, dy, e), AND(NOT(dx), NOT(dy)))


def isatom2(x, n, ty):
    return apply(lambda z: TRUE if z.args[0] == n else FALSE, discr_of_term(x, ty))


EQRULES.append(_eq_option)
