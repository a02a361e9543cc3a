"""Meaning of the library calls that MIR leaves opaque."""
import re
from .vals import *
from .strs import *
from . import strs, loops, rx
from .loops import (CHAR, USIZE, U8, STR, BOOL, NeedAbstract, mkany, mkfirst, mksum, subst, elem_of, seqterm, src_nodes, run_loop)
from .eng import St

SELF_TYPES = {"PhoneNumberUtilInternal", "PhoneNumberUtil", "RegexBasedMatcher", "RegexCache", "PhoneNumberRegExpsAndMappings"}
ASSUMED_OK = ("InvalidRegexError", "InternalLogicError")

TAB = {}
_cache = {}


def model(*keys):
    def d(f):
        for k in keys:
            TAB[k] = f
        return f
    return d


def split_top(s, sep):
    depth, i = 0, 0
    while i < len(s):
        ch = s[i]
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            if not (ch == ">" and s[i - 1] == "-"):
                depth -= 1
        elif depth == 0 and s.startswith(sep, i):
            return s[:i], s[i + len(sep):]
        i += 1
    return s, None


def parse_name(name):
    """-> (receiver text, trait text, method)"""
    m = short(name)
    if name.startswith("<"):
        depth = 0
        for i, ch in enumerate(name):
            if ch == "<":
                depth += 1
            elif ch == ">" and name[i - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner = name[1:i]
        a, b = split_top(inner, " as ")
        return a, b or "", m
    k = name.find("<impl ")
    if k >= 0:
        depth = 0
        for i in range(k, len(name)):
            if name[i] == "<":
                depth += 1
            elif name[i] == ">" and name[i - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner = name[k + 6:i]
        if inner.startswith("<"):   # impl<T>
            pass
        a, b = split_top(inner, " for ")
        if b is not None:
            return b, a, m
        return inner, "", m
    # path::Type::<..>::method
    base = re.sub(r"::<[^:]*$", "", name)
    segs = []
    depth, cur = 0, ""
    for i, ch in enumerate(name):
        if ch in "<":
            depth += 1
        if ch == ">" and name[i - 1] != "-":
            depth -= 1
        if depth == 0 and name.startswith("::", i):
            segs.append(cur)
            cur = ""
        elif not (depth == 0 and ch == ":" and name[i - 1] == ":" and cur == ""):
            cur += ch
    segs.append(cur)
    segs = [s for s in segs if s and s != ":"]
    nog = [s for s in segs if not s.startswith("<")]
    return (nog[-2] if len(nog) > 1 else ""), "", m


def category(recv, trait, name):
    tr = trait.split("<")[0].split("::")[-1]
    if tr in ("Iterator", "DoubleEndedIterator", "ExactSizeIterator", "IntoIterator", "FusedIterator"):
        return "iter"
    if tr in ("Clone", "Deref", "DerefMut", "PartialEq", "Eq", "Default", "ToOwned", "ToString", "AsRef", "AsMut", "Borrow", "BorrowMut", "From", "Into", "TryFrom", "TryInto",
              "Index", "IndexMut", "Extend", "FromIterator", "FnOnce", "FnMut", "Fn", "PartialOrd", "Ord", "SpecToString", "Add", "AddAssign", "Display", "FromStr", "Write", "Hash", "Replacer", "Try", "FromResidual",
              "Not", "BitAnd", "BitOr", "SpecFromElem", "Drop", "RegexFullMatch", "RegexConsume", "RegexCache", "MatcherApi"):
        return tr
    r = recv.strip().lstrip("&").replace("mut ", "")
    r0 = re.sub(r"<.*", "", r).split("::")[-1] if not r.startswith("[") else "[]"
    r0 = r0.strip()
    if r.startswith("str") or r0 in ("str", "String"):
        return "str"
    if r0 in ("[]", "Vec", "VecDeque") or r.startswith("["):
        return "seq"
    if r0 in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
        return "map"
    if r0 == "Cow" :
        return "Cow"
    return r0


def lookup(eng, name, ins):
    if name in _cache:
        return _cache[name]
    recv, trait, m = parse_name(name)
    cat_ = category(recv, trait, name)
    r = TAB.get((cat_, m)) or TAB.get(("*", m) if not name.startswith(("rlibphonenumber", "<rlibphonenumber", "vspec", "<vspec")) else None)
    if r is None and name in TAB:
        r = TAB[name]
    if r is None and re.sub(r"::<.*", "", name) in TAB:
        r = TAB[re.sub(r"::<.*", "", name)]
    if r is not None and getattr(r, "cond", None) and not r.cond(recv, trait, m, name):
        r = None
    _cache[name] = r
    return r


# ------------------------------------------------------------------ helpers
_opt = {}


def opt_ty(sub):
    s = "Option<%s>" % (sub.s if sub is not None else "?")
    ty = Types({"types": []})._intern(s, "adt", name="Option")
    if ty.raw is None and ty.variants is None:
        ty.sub = "enum"
        ty.name = "Option"
        ty.variants = {"None": {}, "Some": {"0": sub}}
        ty.discr = {"None": 0, "Some": 1}
    return ty


def res_ty(a, b):
    s = "Result<%s,%s>" % (a.s if a else "?", b.s if b else "?")
    ty = Types({"types": []})._intern(s, "adt", name="Result")
    if ty.raw is None and ty.variants is None:
        ty.sub = "enum"
        ty.variants = {"Ok": {"0": a}, "Err": {"0": b}}
        ty.discr = {"Ok": 0, "Err": 1}
    return ty


def some(v, sub=None):
    return Enum(opt_ty(sub), cn("Some"), {"Some": {"0": v}})


def none(sub=None):
    return Enum(opt_ty(sub), cn("None"), {})


def option(cond, v, sub=None):
    if cond is FALSE:
        return none(sub)
    return Enum(opt_ty(sub), ite(cond, cn("Some"), cn("None")), {"Some": {"0": v}})


def okv(v, a=None, b=None):
    return Enum(res_ty(a, b), cn("Ok"), {"Ok": {"0": v}})


def raw(eng, st, v):
    """value behind a possible &mut"""
    return eng.deref(st, v) if isinstance(v, N) else v


def nd(eng, st, v):
    return enc(raw(eng, st, v))


def as_bool(n):
    return apply(lambda x: (TRUE if x is TT else FALSE if x is FF else FALSE if x.op == "undef" else var(x)), n)


def boolvar(t_):
    return var(t_)


def eqv(a, b):
    if a is b:
        return TRUE
    if isinstance(a, N) and isinstance(b, N):
        la, lb = leaves(a), leaves(b)
        if all(x is TT or x is FF for x in la) and all(x is TT or x is FF for x in lb):
            return IFF(a, b)
        return apply(eq, a, b)
    if isinstance(a, N) and isinstance(b, (Agg, Enum)):
        a = expand(a, b.ty)
    elif isinstance(b, N) and isinstance(a, (Agg, Enum)):
        b = expand(b, a.ty)
    if isinstance(a, Agg) and isinstance(b, Agg):
        r = TRUE
        for k in a.f:
            r = AND(r, eqv(a.f[k], b.f.get(k, UNDEF)))
        return r
    if isinstance(a, Enum) and isinstance(b, Enum):
        r = FALSE
        for vn in vnames(a.ty):
            g = AND(isv(a, vn), isv(b, vn))
            if g is FALSE:
                continue
            pa, pb = a.p.get(vn, {}), b.p.get(vn, {})
            for k in pa:
                if k in pb and pa[k] is not UNDEF and pb[k] is not UNDEF:
                    g = AND(g, eqv(pa[k], pb[k]))
            r = OR(r, g)
        return r
    if a is UNDEF or b is UNDEF:
        return FALSE
    if isinstance(a, ListV) and isinstance(b, ListV):
        if len(a.items) != len(b.items):
            return FALSE
        return AND(*[eqv(x, y) for x, y in zip(a.items, b.items)])
    return apply(eq, enc(a), enc(b))


# ------------------------------------------------------------------ scalar ops
def ordering(eng, a, b):
    """the Ordering of two integers"""
    ty = eng.__dict__.get("_ordty")
    if ty is None:
        for i, x in enumerate(eng.raw):
            if x.get("k") == "adt" and {v.get("name") for v in x.get("variants", ())} == {"Less", "Equal", "Greater"}:
                ty = eng._ordty = eng.ty(i)
                break
    a, b = enc(a), enc(b)

    def num(x):
        return x.op == "c" and isinstance(x.args[0], int) or x.op in SIZES + ("lin", "ch") or kind_(x.ty) in ("int", "uint", "char")
    if ty is None or not all(num(x) for x in leaves(a) + leaves(b)):
        return leaf(t("unk", "cmp", a, b, weak=True))
    return Enum(ty, ite(apply(lt, a, b), cn("Less"), ite(apply(eq, a, b), cn("Equal"), cn("Greater"))), {})


def kind_(ty):
    return getattr(ty, "k", None)


@model(("Ord", "cmp"))
def m_cmp(eng, ins, a, st):
    return ordering(eng, raw(eng, st, a[0]), raw(eng, st, a[1]))


@model(("PartialOrd", "partial_cmp"))
def m_pcmp(eng, ins, a, st):
    v = ordering(eng, raw(eng, st, a[0]), raw(eng, st, a[1]))
    return some(v, getattr(v, "ty", None))


@model(("Ordering", "reverse"))
def m_ord_rev(eng, ins, a, st):
    v = raw(eng, st, a[0])
    if not isinstance(v, Enum):
        return eng.unknown_call(ins["name"], a, st)
    return Enum(v.ty, apply(lambda x: cn({"Less": "Greater", "Greater": "Less"}.get(x.args[0], x.args[0])), v.d), {})


def binop(eng, op, a, b, dty):
    if op in ("Eq", "Ne"):
        r = eqv(a, b)
        return r if op == "Eq" else NOT(r)
    a, b = enc(a), enc(b)
    isb = lambda n: all(x is TT or x is FF for x in leaves(n))
    if op in ("BitAnd", "BitOr", "BitXor") and (isb(a) or isb(b) or dty is not None and dty.k == "bool"):
        return AND(a, b) if op == "BitAnd" else OR(a, b) if op == "BitOr" else NOT(IFF(a, b))
    if op in ("Lt", "Le", "Gt", "Ge"):
        f = {"Lt": lt, "Le": le, "Gt": lambda x, y: lt(y, x), "Ge": lambda x, y: le(y, x)}[op]
        return apply(f, a, b)
    base = op.replace("Unchecked", "").replace("WithOverflow", "")
    if base == "Add":
        return apply(lambda x, y: leaf(add(x, y)), a, b)
    if base == "Sub":
        return apply(lambda x, y: leaf(add(x, y, 1, -1)), a, b)
    if base == "Mul":
        def mul(x, y):
            if x.op == "c":
                return leaf(mulc(y, int(x.args[0])))
            if y.op == "c":
                return leaf(mulc(x, int(y.args[0])))
            return leaf(t("mul", *sorted((x, y), key=lambda z: z.id)))
        return apply(mul, a, b)
    if base in ("Div", "Rem"):
        def dv(x, y):
            if x.op == "c" and y.op == "c" and y.args[0]:
                q = abs(x.args[0]) // abs(y.args[0])
                q = q if (x.args[0] < 0) == (y.args[0] < 0) else -q
                return cn(q if base == "Div" else x.args[0] - q * y.args[0])
            if base == "Div" and y.op == "c" and dty is not None and dty.k == "uint" and y.args[0] > 0:
                k = y.args[0]
                if x.op == "div" and x.args[1].op == "c":
                    x, k = x.args[0], k * x.args[1].args[0]
                h = high(x)
                if h is not None and k > h:
                    return cn(0)
                return leaf(x if k == 1 else t("div", x, c(k), ty=dty))
            return leaf(t(base.lower(), x, y, ty=dty))
        return apply(dv, a, b)
    if base == "Cmp":
        return ordering(eng, a, b)
    if base in ("Shl", "Shr", "BitAnd", "BitOr", "BitXor"):
        def sh(x, y):
            if x.op == "c" and y.op == "c":
                p, q = int(x.args[0]), int(y.args[0])
                return cn({"Shl": p << q, "Shr": p >> q, "BitAnd": p & q, "BitOr": p | q, "BitXor": p ^ q}[base])
            return leaf(t("bit" + base, x, y, ty=dty))
        return apply(sh, a, b)
    return unk("binop:" + op, enc(a), enc(b))


def overflow(eng, op, a, b, v, ty):
    a, b = enc(a), enc(b)
    base = op.replace("WithOverflow", "")
    if base == "Sub" and ty is not None and ty.k == "uint":
        return apply(lambda x, y: lt(x, y), a, b)
    if all(x.op == "c" for x in leaves(enc(v))):
        return FALSE
    return apply(lambda x: FALSE if x.op == "c" else var(t("ovf", base, x, ty.s if ty is not None else "")), enc(v))


def unop(eng, op, a):
    a = enc(a)
    if op == "Not":
        if all(x is TT or x is FF for x in leaves(a)):
            return NOT(a)
        return apply(lambda x: leaf(t("bitnot", x)), a)
    if op == "Neg":
        return apply(lambda x: leaf(mulc(x, -1)), a)
    return apply(lambda x: leaf(seqlen_t(x)), a) if op == "PtrMetadata" else unk("unop:" + op, a)


def seqlen_t(x):
    return slen(x)


def seqlen(eng, v):
    if isinstance(v, ListV):
        return cn(len(v.items))
    return apply(lambda x: leaf(slen(x)), enc(v))


RNG = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "i32": (-2**31, 2**31 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i8": (-128, 127), "i16": (-32768, 32767)}


SIZES = ("len", "sum", "find", "rfind", "ms", "me", "utf8len", "count", "index", "idxof", "pos", "maplen", "plen", "grpn")


def small(x):
    """a size of something in memory (taken to be below 2^31) or a difference of such"""
    k, d = lin_parts(x)
    return abs(k) < 1 << 30 and bool(d) and all(a.op in SIZES and abs(co) <= 4 for a, co in d.items())


def fits(sty, dty):
    s, d = RNG.get(sty.s) if sty is not None else None, RNG.get(dty.s)
    if sty is not None and sty.s == "char":
        s = (0, 0x10FFFF)
    if sty is not None and sty.s == "bool":
        s = (0, 1)
    return d is None or s is not None and d[0] <= s[0] and s[1] <= d[1]


def wrapped(x, ty, sty=None):
    """x in the type ty: itself where it fits"""
    lo, hi = RNG[ty.s]
    slo, shi = (0, 0x10FFFF) if sty is not None and sty.s == "char" else RNG.get(sty.s, (lo - 1, hi + 1)) if sty is not None else (lo - 1, hi + 1)
    if x.op == "c" and isinstance(x.args[0], int):
        return cn((x.args[0] - lo) % (hi - lo + 1) + lo)
    return ite(AND(TRUE if slo >= lo else ge0(add(x, c(lo), 1, -1)), TRUE if shi <= hi else ge0(add(c(hi), x, 1, -1))), leaf(x), leaf(t("wrap", x, ty.s, ty=ty)))


def cast(eng, kind, v, dty, sty=None):
    if kind in ("IntToInt",) or "Int" in str(kind):
        v2 = enc(v)
        if dty is not None and all(x is TT or x is FF for x in leaves(v2)):
            return ite(v2, cn(1), cn(0))

        def one(x):
            if x.op == "c" and dty is not None and dty.s in RNG:
                lo, hi = RNG[dty.s]
                k = int(x.args[0])
                return cn((k - lo) % (hi - lo + 1) + lo)
            if dty is None or dty.s not in RNG or sty is None or fits(sty, dty) or sty.s not in RNG and sty.s != "char" or x.weak:
                return leaf(x)
            if small(x) and RNG[dty.s][1] >= (1 << 31) - 1:
                return leaf(x)
            return wrapped(x, dty, sty)
        return apply(one, v2)
    return v


# ------------------------------------------------------------------ indexing
def index(eng, v, idx, ety):
    idx = enc(idx)
    if isinstance(v, ListV) and idx.atom is None and idx.leaf.op == "c":
        k = idx.leaf.args[0]
        return v.items[k] if k < len(v.items) else UNDEFN
    v = enc(v)
    return apply(lambda x, i: at(x, i, ety), v, idx)


def at(x, i, ety=None):
    if x.op == "list" and i.op == "c" and i.args[0] < len(x.args):
        return opaque(x.args[i.args[0]], ety)
    if i.op == "idxof" and i.args[0] is x:
        return opaque(i.args[1], ety)
    if x.op == "slice":
        return at(x.args[0], add(x.args[1], i), ety)
    if x.op == "bytes" and i is c(0):
        return leaf(t("byte", x.args[0], i))
    return opaque(t("at", x, i, ty=ety), ety)


CONS["at"] = lambda x, i: at(x, i)


def const_index(eng, v, e, ety):
    off, _min, fromend = e[0], e[1] if len(e) > 1 else 0, e[2] if len(e) > 2 else False
    if isinstance(v, ListV):
        k = len(v.items) - off if fromend else off
        return v.items[k] if 0 <= k < len(v.items) else UNDEFN
    v = enc(v)
    return apply(lambda x: at(x, add(slen(x), c(off), 1, -1) if fromend else c(off), ety), v)


def const_slice(eng, v, e):
    a, b, fromend = e[0], e[1], e[2] if len(e) > 2 else False
    v = enc(v)
    return apply(lambda x: leaf(sslice(x, c(a), add(slen(x), c(b), 1, -1) if fromend else c(b))), v)


def update_index(eng, v, idx, f):
    idx = enc(idx)
    if isinstance(v, ListV) and idx.atom is None and idx.leaf.op == "c" and idx.leaf.args[0] < len(v.items):
        it = list(v.items)
        it[idx.leaf.args[0]] = f(it[idx.leaf.args[0]])
        return ListV(it, v.ty)
    return unk("update_index", enc(v), idx)


# ------------------------------------------------------------------ boundaries
def boundary_result(eng, name, vals, rty):
    """opaque result of a function that has its own obligation"""
    def mkr(ty):
        def f(*xs):
            r = t("b:" + name, *xs, ty=ty)
            return opaque(r, ty)
        return apply(f, *vals) if vals else f()
    if rty is not None and rty.k == "adt" and rty.name == "Result":
        lay = layout(rty)
        et = lay["Err"]["0"]
        if et.s in ASSUMED_OK:
            ot = lay["Ok"]["0"]

            def g(*xs):
                return opaque(t("b:" + name, *xs, ty=ot), ot)
            v = apply(g, *vals) if vals else g()
            return Enum(rty, cn("Ok"), {"Ok": {"0": v}})
    return mkr(rty)


# ------------------------------------------------------------------ identity-like
def ident(eng, ins, a, st):
    return raw(eng, st, a[0])


def ident_ptr(eng, ins, a, st):
    return a[0]


for tr, ms in {"Clone": ["clone"], "Deref": ["deref"], "ToOwned": ["to_owned"], "AsRef": ["as_ref"], "Borrow": ["borrow"], "Into": ["into"]}.items():
    for m_ in ms:
        TAB[(tr, m_)] = ident
for m_ in ("deref_mut", "as_mut", "borrow_mut"):
    for tr in ("DerefMut", "AsMut", "BorrowMut", "Vec", "seq", "str"):
        TAB[(tr, m_)] = ident_ptr
for k_ in [("str", x) for x in ("as_str", "into_boxed_str", "into_string", "as_mut_str", "to_string")] + [("Cow", "into_owned"), ("seq", "as_slice"), ("seq", "to_vec"), ("seq", "into_boxed_slice"), ("seq", "into_vec"),
           ("seq", "to_owned"), ("Arc", "new"), ("Box", "new"), ("Rc", "new"), ("hint", "must_use"), ("hint", "black_box"), ("*", "must_use"), ("Option", "as_deref"), ("Ref", "value"), ("RefMut", "value"), ("EnumOrUnknown", "new"), ("MessageField", "some"),
           ("Arc", "as_ref"), ("mem", "drop"), ("EnumOrUnknown", "enum_value_or_default"), ("EnumOrUnknown", "enum_value_or")]:
    TAB[k_] = ident


def _into_cond(recv, trait, m, name):
    """conversions that only change the representation"""
    src = recv
    return any(x in recv or x in trait for x in ("str", "String", "Cow", "Vec", "Box", "Arc"))


def _from(eng, ins, a, st):
    return raw(eng, st, a[0])


_from.cond = lambda recv, trait, m, name: any(x in recv for x in ("Cow<", "String", "Vec<", "Box<str", "Arc<", "EnumOrUnknown", "VecDeque")) and "rlibphonenumber::" not in recv.split("<")[0]
TAB[("From", "from")] = _from


def _into(eng, ins, a, st):
    return raw(eng, st, a[0])


_into.cond = lambda recv, trait, m, name: any(x in trait for x in ("Cow<", "String", "Vec<", "Box<str"))
TAB[("Into", "into")] = _into


@model(("ToString", "to_string"), ("SpecToString", "spec_to_string"))
def to_string(eng, ins, a, st):
    recv, trait, m = parse_name(ins["name"])
    return display(eng, st, a[0], recv)


def display(eng, st, v, tyname):
    ty = re.sub(r"^(&|mut |\s)*", "", tyname).strip()
    v = raw(eng, st, v)
    if ty in ("str", "std::string::String") or ty.startswith("std::borrow::Cow<"):
        return v
    if ty == "char":
        return apply(lambda x: leaf(chrt(x)), enc(v))
    if ty in RNG:
        return apply(lambda x: leaf(itoa(x)), enc(v))
    return apply(lambda x: leaf(t("unk", "display", x, weak=True)), enc(v))


@model("core::fmt::rt::Argument::new_display", ("Argument", "new_display"))
def new_display(eng, ins, a, st):
    n = ins["name"]
    return display(eng, st, a[0], n[n.index("new_display::<") + 14:-1])


TAB[("Argument", "new_debug")] = lambda eng, ins, a, st: apply(lambda x: leaf(t("unk", "debug", x, weak=True)), nd(eng, st, a[0]))


@model(("Arguments", "new"))
def fmt_new(eng, ins, a, st):
    tpl, args = a[0], a[1] if len(a) > 1 else ListV([])
    bs = None
    if isinstance(tpl, ListV):
        bs = bytes(enc(x).leaf.args[0] for x in tpl.items)
    elif isinstance(tpl, N) and tpl.atom is None and isc(tpl.leaf):
        bs = tpl.leaf.args[0].encode("latin1")
    items = list(args.items) if isinstance(args, ListV) else None
    if bs is None or items is None:
        return unk("format", enc(tpl), enc(args))
    out, i, k = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(cn(bs[i:i + b].decode("utf8")))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            out.append(cn(bs[i + 2:i + 2 + n].decode("utf8")))
            i += 2 + n
        elif b == 0xC0:
            out.append(enc(items[k]))
            k += 1
        else:
            return unk("format", enc(args))
    return apply(lambda *x: leaf(cat(*x)), *out) if out else cn("")


TAB[("Arguments", "from_str")] = ident
TAB["std::fmt::format"] = ident
TAB[("fmt", "format")] = ident
TAB[("log", "max_level")] = lambda eng, ins, a, st: cn("loglevel")
TAB["log::__private_api::log"] = lambda eng, ins, a, st: Agg(None, {})
TAB["log::__private_api::loc"] = lambda eng, ins, a, st: cn("loc")
TAB[("__private_api", "log")] = TAB["log::__private_api::log"]
TAB[("__private_api", "loc")] = TAB["log::__private_api::loc"]


@model(("PartialOrd", "le"), ("PartialOrd", "lt"), ("PartialOrd", "ge"), ("PartialOrd", "gt"))
def cmp_ops(eng, ins, a, st):
    n = ins["name"]
    if "log::Level" in n:
        return TRUE if eng.opts.get("log") else FALSE
    recv, trait, m = parse_name(n)
    x, y = nd(eng, st, a[0]), nd(eng, st, a[1])
    if recv.replace("&", "").strip() in list(RNG) + ["char"]:
        return apply({"le": le, "lt": lt, "ge": lambda p, q: le(q, p), "gt": lambda p, q: lt(q, p)}[m], x, y)
    return apply(lambda p, q: var(t("unk", m, p, q, weak=True)), x, y)


@model(("Default", "default"))
def default(eng, ins, a, st):
    recv, trait, m = parse_name(ins["name"])
    r0 = re.sub(r"<.*", "", recv).split("::")[-1]
    if r0 in ("String", "&str", "str"):
        return cn("")
    if r0 == "bool":
        return FALSE
    if r0 in RNG:
        return cn(0)
    if r0 in ("Vec", "VecDeque"):
        return ListV([])
    if r0 == "Option":
        return none()
    if r0 in ("HashMap", "HashSet"):
        return MapV({})
    return leaf(t("default", recv))


default.cond = lambda recv, trait, m, name: not ("rlibphonenumber::" in recv.split("<")[0] or "vspec::" in recv.split("<")[0])


@model(("PartialEq", "eq"))
def m_eq(eng, ins, a, st):
    return eqv(raw2(eng, st, a[0]), raw2(eng, st, a[1]))


@model(("PartialEq", "ne"))
def m_ne(eng, ins, a, st):
    return NOT(eqv(raw2(eng, st, a[0]), raw2(eng, st, a[1])))


def raw2(eng, st, v):
    return raw(eng, st, v)


# ------------------------------------------------------------------ strings
def _str1(f):
    def g(eng, ins, a, st):
        return apply(f, nd(eng, st, a[0]))
    return g


TAB[("str", "len")] = _str1(lambda x: leaf(slen(x)))
TAB[("seq", "len")] = lambda eng, ins, a, st: seqlen(eng, raw(eng, st, a[0]))
TAB[("str", "is_empty")] = _str1(lambda x: NOT(nonempty(x)))
TAB[("seq", "is_empty")] = lambda eng, ins, a, st: apply(lambda x: eq(x, c(0)), seqlen(eng, raw(eng, st, a[0])))
TAB[("str", "new")] = lambda eng, ins, a, st: cn("")
TAB[("str", "with_capacity")] = lambda eng, ins, a, st: cn("")
TAB[("seq", "new")] = lambda eng, ins, a, st: ListV([])
TAB[("seq", "with_capacity")] = lambda eng, ins, a, st: ListV([])
TAB[("str", "reserve")] = TAB[("seq", "reserve")] = TAB[("str", "shrink_to_fit")] = lambda eng, ins, a, st: Agg(None, {})
TAB[("str", "from_utf8_lossy")] = ident


def pattern(eng, st, p):
    """search pattern argument -> node of a string term / set / None when it is a predicate"""
    p = raw(eng, st, p)
    if isinstance(p, Agg) and p.inst is not None:
        return None
    if isinstance(p, ListV):
        xs = [enc(x) for x in p.items]
        if all(x.atom is None and x.leaf.op == "c" for x in xs):
            return leaf(t("pset", "".join(sorted({chr(x.leaf.args[0]) for x in xs}))))
        return unk("pattern", *xs)
    n = enc(p)

    def one(x):
        if x.op == "c" and isinstance(x.args[0], int):
            return leaf(chrt(x))
        if x.ty is not None and x.ty.k == "char" or x.op == "elem" and x.ty is CHAR or x.op == "ch":
            return leaf(chrt(x))
        return leaf(x)
    return apply(one, n)


def pred_set(eng, st, f, s):
    """a char predicate as a condition over a fresh element"""
    loops._w[0] += 1
    w = "p%d" % loops._w[0]
    e = leaf(t("elem", w, ty=CHAR))
    v, _ = eng.call_closure(f, [e], st)
    return w, enc(v)


@model(("str", "starts_with"))
def m_starts(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        w, E = pred_set(eng, st, a[1], s)
        return apply(lambda x: AND(nonempty(x), subst(E, {t("elem", w): chfirst(x)})), s)
    return apply(starts, s, p)


@model(("str", "ends_with"))
def m_ends(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        w, E = pred_set(eng, st, a[1], s)
        return apply(lambda x: AND(nonempty(x), subst(E, {t("elem", w): chlast(x)})), s)
    return apply(ends, s, p)


@model(("str", "contains"))
def m_contains(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        w, E = pred_set(eng, st, a[1], s)
        return apply(lambda x: mkany(t("chars", x), E, w), s)
    return apply(has, s, p)


@model(("str", "find"))
def m_find(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        w, E = pred_set(eng, st, a[1], s)
        cond = apply(lambda x: mkany(t("chars", x), E, w), s)
        idx = apply(lambda x: mksum(loops.mkprefix(t("chars", x), NOT(E), w), leaf(utf8len(t("elem", w))), w), s)
        return option(cond, idx, USIZE)
    return option(apply(has, s, p), apply(lambda x, y: leaf(find(x, y)), s, p), USIZE)


@model(("str", "rfind"))
def m_rfind(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        w, E = pred_set(eng, st, a[1], s)
        cond = apply(lambda x: mkany(t("chars", x), E, w), s)

        def at_(x):
            R = t("rev", t("chars", x))
            n = mksum(loops.mkprefix(R, NOT(E), w), leaf(utf8len(t("elem", w))), w)
            return apply(lambda k, l: leaf(add(slen(x), add(k, utf8len(l)), 1, -1)), n, loops.mkfirst(R, E, w))
        return option(cond, apply(at_, s), USIZE)
    return option(apply(has, s, p), apply(lambda x, y: leaf(t("rfind", x, y)), s, p), USIZE)


@model(("str", "strip_prefix"))
def m_strip_prefix(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        return option(var(t("unk", "strip_prefix", s, weak=True)), unk("strip_prefix", s))
    return option(apply(starts, s, p), apply(lambda x, y: leaf(strip_pre(x, y)), s, p), STR)


def strip_pre(x, y):
    if y.op == "pset":
        return sslice(x, c(1), slen(x))
    if starts(x, y) is FALSE:
        return t("undef")
    if x.op == "cat" and y.op != "c":
        if x.args[0] is y:
            return cat(*x.args[1:])
    return sslice(x, slen(y), slen(x))


@model(("str", "strip_suffix"))
def m_strip_suffix(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        return option(var(t("unk", "strip_suffix", s, weak=True)), unk("strip_suffix", s))
    return option(apply(ends, s, p), apply(lambda x, y: leaf(sslice(x, c(0), add(slen(x), c(1) if y.op == "pset" else slen(y), 1, -1))), s, p), STR)


@model(("str", "split_once"))
def m_split_once(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        return option(var(t("unk", "split_once", s, weak=True)), unk("split_once", s))
    ty = Types({"types": []})._intern("(str,str)", "tuple")
    ty.fields = {"0": STR, "1": STR}
    return option(apply(has, s, p), Agg(ty, {"0": apply(lambda x, y: leaf(sslice(x, c(0), find(x, y))), s, p),
                                             "1": apply(lambda x, y: leaf(sslice(x, add(find(x, y), slen(y)), slen(x))), s, p)}), ty)


@model(("str", "split_at"))
def m_split_at(eng, ins, a, st):
    s, i = nd(eng, st, a[0]), nd(eng, st, a[1])
    ty = Types({"types": []})._intern("(str,str)", "tuple")
    ty.fields = {"0": STR, "1": STR}
    slice_site(eng, st, s, cn(0), i, "split_at")
    return Agg(ty, {"0": apply(lambda x, y: leaf(sslice(x, c(0), y)), s, i), "1": apply(lambda x, y: leaf(sslice(x, y, slen(x))), s, i)})


@model(("str", "repeat"))
def m_repeat(eng, ins, a, st):
    return apply(lambda x, n: leaf(repeat(x, n)), nd(eng, st, a[0]), nd(eng, st, a[1]))


@model(("str", "replace"))
def m_replace(eng, ins, a, st):
    p = pattern(eng, st, a[1])
    if p is None:
        return unk("replace", nd(eng, st, a[0]), nd(eng, st, a[2]))
    return apply(lambda x, y, z: leaf(replace(x, y, z)), nd(eng, st, a[0]), p, nd(eng, st, a[2]))


@model(("str", "replacen"))
def m_replacen(eng, ins, a, st):
    p = pattern(eng, st, a[1])
    if p is None:
        return unk("replacen", nd(eng, st, a[0]), nd(eng, st, a[2]), enc(a[3]))

    def f(x, y, z, k):
        if k.op == "c" and k.args[0] == 0:
            return leaf(x)
        r = replace(x, y, z)
        return leaf(r if r is x or r.op == "c" and k.op == "c" and isc(x) and x.args[0].count(y.args[0]) <= k.args[0] else t("replacen", x, y, z, k, ty=STR))
    return apply(f, nd(eng, st, a[0]), p, nd(eng, st, a[2]), enc(a[3]))


@model(("seq", "windows"))
def m_windows(eng, ins, a, st):
    s, k = nd(eng, st, a[0]), enc(a[1])
    if k.atom is not None or k.leaf.op != "c" or k.leaf.args[0] < 1:
        return fresh_unk("windows")
    return IterV(("range", cn(k.leaf.args[0] - 1), apply(lambda x: leaf(slen(x)), s)), False, (("win", (s, k.leaf.args[0])),))


@model(("str", "char_indices"))
def m_char_indices(eng, ins, a, st):
    s = nd(eng, st, a[0])
    if s.atom is None and isc(s.leaf):
        ty = Types({"types": []})._intern("(usize,char)", "tuple")
        ty.fields = ty.fields or {"0": USIZE, "1": CHAR}
        out, at_ = [], 0
        for ch in s.leaf.args[0]:
            out.append(Agg(ty, {"0": cn(at_), "1": cn(ord(ch))}))
            at_ += len(ch.encode("utf8"))
        return IterV(("list", tuple(out)))
    return IterV(("chars", s), False, (("cidx", s),))


TAB[("str", "chars")] = lambda eng, ins, a, st: IterV(("chars", nd(eng, st, a[0])))
TAB[("str", "as_bytes")] = lambda eng, ins, a, st: apply(lambda x: leaf(t("bytes", x)), nd(eng, st, a[0]))
TAB[("str", "into_bytes")] = TAB[("str", "as_bytes")]
TAB[("str", "bytes")] = lambda eng, ins, a, st: IterV(("bytes", nd(eng, st, a[0])))


def trim_text(x, y, front):
    """x without as many copies of y as stand at its start (end)"""
    n = slen(y)
    if front:
        one, cond = sslice(x, n, slen(x)), (lambda z: starts(z, y))
    else:
        one, cond = sslice(x, c(0), add(slen(x), n, 1, -1)), (lambda z: ends(z, y))
    return ite(AND(cond(x), nonempty(y)), ite(cond(one), leaf(t("trimtext", x, y, front, ty=STR)), leaf(one)), leaf(x))


@model(("str", "trim_start_matches"))
def m_tsm(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    loops._w[0] += 1
    w = "p%d" % loops._w[0]
    el = t("elem", w, ty=CHAR)
    if p is None:
        w, E = pred_set(eng, st, a[1], s)
    elif p.atom is None and isc(p.leaf) and len(p.leaf.args[0]) == 1:
        E = eq(el, c(ord(p.leaf.args[0])))
    elif p.atom is None and p.leaf.op == "pset":
        E = OR(*[eq(el, c(ord(x))) for x in p.leaf.args[0]])
    else:
        if any(x.op in ("pset", "ppred", "unk") for x in leaves(p)):
            return unk("trim_start_matches", s, p)
        return apply(lambda x, y: trim_text(x, y, True), s, p)
    return apply(lambda x, n: leaf(sslice(x, n, slen(x))), s, apply(lambda x: mksum(loops.mkprefix(t("chars", x), E, w), leaf(utf8len(t("elem", w))), w), s))


def charset(eng, st, f, s):
    """a character pattern -> (binder, condition), or None"""
    p = pattern(eng, st, f)
    if p is None:
        return pred_set(eng, st, f, s)
    loops._w[0] += 1
    w = "p%d" % loops._w[0]
    el = t("elem", w, ty=CHAR)
    if p.atom is None and isc(p.leaf) and len(p.leaf.args[0]) == 1:
        return w, eq(el, c(ord(p.leaf.args[0])))
    if p.atom is None and p.leaf.op == "pset":
        return w, OR(*[eq(el, c(ord(x))) for x in p.leaf.args[0]])
    return None


@model(("str", "trim_end_matches"))
def m_tem(eng, ins, a, st):
    s = nd(eng, st, a[0])
    r = charset(eng, st, a[1], s)
    if r is None:
        p = pattern(eng, st, a[1])
        if p is None or any(x.op in ("pset", "ppred", "unk") for x in leaves(p)):
            return unk("trim_end_matches", s, enc(a[1]))
        return apply(lambda x, y: trim_text(x, y, False), s, p)
    w, E = r
    return apply(lambda x, n: leaf(sslice(x, c(0), add(slen(x), n, 1, -1))), s,
                 apply(lambda x: mksum(loops.mkprefix(t("rev", t("chars", x)), E, w), leaf(utf8len(t("elem", w))), w), s))


@model(("str", "trim_matches"))
def m_tm(eng, ins, a, st):
    return m_tem(eng, ins, [m_tsm(eng, ins, a, st), a[1]], st)


@model(("str", "split"), ("str", "split_terminator"), ("str", "rsplit"))
def m_split(eng, ins, a, st):
    s = nd(eng, st, a[0])
    p = pattern(eng, st, a[1])
    if p is None:
        return eng.unknown_call("split by closure", a, st)
    return IterV((short(ins["name"]), s, p, STR))


TAB[("char", "encode_utf8")] = lambda eng, ins, a, st: apply(lambda x: leaf(chrt(x)), nd(eng, st, a[0]))
TAB[("str", "trim")] = _str1(lambda x: leaf(t("trim", x)))
TAB[("str", "trim_start")] = _str1(lambda x: leaf(t("trim_start", x)))
TAB[("str", "trim_end")] = _str1(lambda x: leaf(t("trim_end", x)))
TAB[("str", "is_char_boundary")] = lambda eng, ins, a, st: apply(lambda x, i: AND(le(i, slen(x)), bnd(x, i)), nd(eng, st, a[0]), nd(eng, st, a[1]))
TAB[("str", "to_lowercase")] = _str1(lambda x: leaf(t("strlower", x)))
TAB[("str", "to_uppercase")] = _str1(lambda x: leaf(t("strupper", x)))
TAB[("str", "to_ascii_uppercase")] = _str1(lambda x: leaf(t("strupperascii", x)))
TAB[("str", "to_ascii_lowercase")] = _str1(lambda x: leaf(t("strlowerascii", x)))
TAB[("str", "eq_ignore_ascii_case")] = lambda eng, ins, a, st: apply(lambda x, y: var(t("eqic", x, y)), nd(eng, st, a[0]), nd(eng, st, a[1]))


def slice_site(eng, st, s, i, j, what):
    """records the panic conditions of s[i..j]"""
    if eng.opts.get("sites"):
        def bad(x, p, q):
            L = slen(x)
            return OR(NOT(le(p, q)), NOT(le(q, L)), NOT(bnd(x, p)), NOT(bnd(x, q)))
        try:
            st.g = eng.panic(st, apply(bad, s, i, j), "slice:" + what, (s, i, j))
        except TooBig:
            eng.note("slice site too large")


def bnd(x, i):
    """is i a character boundary of x (given it is within)?"""
    if zero(i) or i is slen(x) or is_seq(x):
        return TRUE
    if is_boundary(x, i):
        return TRUE
    return var(t("boundary", x, i))


CONS["boundary"] = bnd


def ascii_only(x):
    """are all characters of x ASCII?"""
    if isc(x):
        return x.args[0].isascii()
    if x.op == "itoa":
        return True
    if x.op == "cat":
        return all(ascii_only(p) for p in x.args)
    if x.op == "slice":
        return ascii_only(x.args[0])
    if x.op in ("b:get_national_significant_number", "b:normalize_digits_only", "b:normalize_diallable_chars_only", "decfilt"):
        return True
    if x.op == "repeat":
        return ascii_only(x.args[0])
    return False


def is_boundary(x, i):
    if ascii_only(x):
        return True
    k, d = lin_parts(i)
    if i is utf8len(t("ch", x, "first")) or i is add(slen(x), utf8len(t("ch", x, "last")), 1, -1):
        return True
    # position of a character
    ps = [a for a in d if a.op == "pos" and a.args[1] is x]
    if len(ps) == 1 and (i is ps[0] or i is add(ps[0], utf8len(ps[0].args[0]))):
        return True
    # position of a found pattern, in the text or in a part of it
    for a in [a for a, co in d.items() if co == 1 and a.op in ("find", "rfind")]:
        y = a.args[0]
        if y is x:
            off = a
        elif y.op == "slice" and y.args[0] is x:
            off = add(a, y.args[1])
        elif y.op == "slice" and x.op == "slice" and y.args[0] is x.args[0]:
            off = add(add(a, y.args[1]), x.args[1], 1, -1)
        elif x.op == "slice" and y is x.args[0]:
            off = add(a, x.args[1], 1, -1)
        else:
            continue
        k, d2 = lin_parts(add(i, off, 1, -1))
        p = a.args[1]
        if d2:
            if k == 0 and len(d2) == 1 and not isc(p) and p.op not in ("pset", "ppred", "chr") and lin_parts(slen(p)) == (k, d2):
                return True
            continue
        if k == 0 or k == len(p.args[0].encode("utf8") if isc(p) else b"x" * 99) or (isc(p) and p.args[0].isascii() and 0 <= k <= len(p.args[0])):
            return True
    k, d = lin_parts(i)
    if len(d) == 1 and k == 0:
        a = next(iter(d))
        if a.op in ("ms", "me") and a.args[0].op in ("m", "grpm") and match_text(a.args[0]) is x:
            return True
        if in_bytes(a) and a.args[0].args[0] is t("chars", x):
            return True
    if k == 0 and len(d) == 2:
        # what is left when a run of characters is taken from the end
        return all(co == 1 and a is t("len", x) or co == -1 and in_bytes(a) and a.args[0].args[0] is t("rev", t("chars", x)) for a, co in d.items())
    return False


def in_bytes(a):
    """a counts the bytes of a run of characters"""
    return a.op == "sum" and a.args[0].op == "twhile" and a.args[1].atom is None and a.args[1].leaf.op == "utf8len" and a.args[1].leaf.args[0] is t("elem", a.args[2])


def match_text(m):
    if m.op == "m":
        return m.args[1]
    if m.op == "grpm" and m.args[0].op == "caps":
        return m.args[0].args[1]
    return None


@model(("Index", "index"), ("IndexMut", "index_mut"))
def m_index(eng, ins, a, st):
    s = raw(eng, st, a[0])
    r = raw(eng, st, a[1])
    name = ins["name"]
    if "HashMap" in name.split(" as ")[0]:
        st.g = eng.panic(st, NOT(isv(mapget(eng, st, s, r), "Some")), "index:map", (enc(s), enc(r)))
        return payload(mapget(eng, st, s, r), "Some", "0")
    rng = re.search(r"Range\w*", parse_name(name)[1])
    if not rng or "Captures" in name:
        if "Captures" in name:
            return unk("capidx", enc(s), enc(r))
        i = enc(r)
        if isinstance(s, ListV) and i.atom is None and i.leaf.op == "c":
            if i.leaf.args[0] < len(s.items):
                return s.items[i.leaf.args[0]]
        n = seqlen(eng, s)
        st.g = eng.panic(st, apply(lambda l, k: NOT(AND(lt(k, l), le(c(0), k))), n, i), "index", (enc(s), i))
        ety = None
        m = re.search(r"(?:Vec<|\[)(.*?)[>\]]", name)
        return index(eng, s, i, elem_ty(eng, enc(s)))
    s = enc(s)
    kind_ = rng.group(0)
    f = r.f if isinstance(r, Agg) else {}
    lo = enc(f["start"]) if "start" in f else cn(0)
    if kind_ == "RangeFull":
        return s
    hi = None
    if kind_ == "RangeInclusive":
        hi = apply(lambda x: leaf(add(x, c(1))), enc(f.get("end", UNDEF)))
    elif kind_ == "RangeToInclusive":
        hi = apply(lambda x: leaf(add(x, c(1))), enc(f["end"]))
    elif "end" in f:
        hi = enc(f["end"])
    if hi is None:
        hi = apply(lambda x: leaf(slen(x)), s)
    slice_site(eng, st, s, lo, hi, "index")
    return apply(lambda x, i, j: leaf(sslice(x, i, j)), s, lo, hi)


def elem_ty(eng, n):
    for x in leaves(n):
        if x.ty is not None and x.ty.k == "seq":
            return x.ty.sub
    return None


@model(("str", "get"))
def m_str_get(eng, ins, a, st):
    s = nd(eng, st, a[0])
    r = raw(eng, st, a[1])
    if not isinstance(r, Agg):
        return option(var(t("unk", "get", s, weak=True)), unk("get", s))
    lo = enc(r.f["start"]) if "start" in r.f else cn(0)
    hi = enc(r.f["end"]) if "end" in r.f else apply(lambda x: leaf(slen(x)), s)
    ok = apply(lambda x, p, q: AND(le(p, q), le(q, slen(x)), bnd(x, p), bnd(x, q)), s, lo, hi)
    return option(ok, apply(lambda x, i, j: leaf(sslice(x, i, j)), s, lo, hi), STR)


# mutation
def mut(eng, st, p, f):
    eng.store_ptr(st, p, f(raw(eng, st, p)))
    return Agg(None, {})


TAB[("str", "push_str")] = lambda eng, ins, a, st: mut(eng, st, a[0], lambda v: apply(lambda x, y: leaf(cat(x, y)), enc(v), nd(eng, st, a[1])))
TAB[("str", "push")] = lambda eng, ins, a, st: mut(eng, st, a[0], lambda v: apply(lambda x, y: leaf(cat(x, chrt(y))), enc(v), nd(eng, st, a[1])))
TAB[("str", "clear")] = lambda eng, ins, a, st: mut(eng, st, a[0], lambda v: cn(""))
TAB[("seq", "clear")] = lambda eng, ins, a, st: mut(eng, st, a[0], lambda v: ListV([]))
TAB[("str", "insert_str")] = lambda eng, ins, a, st: mut(eng, st, a[0], lambda v: apply(lambda x, i, y: leaf(cat(sslice(x, c(0), i), y, sslice(x, i, slen(x)))), enc(v), nd(eng, st, a[1]), nd(eng, st, a[2])))
TAB[("str", "insert")] = lambda eng, ins, a, st: mut(eng, st, a[0], lambda v: apply(lambda x, i, y: leaf(cat(sslice(x, c(0), i), chrt(y), sslice(x, i, slen(x)))), enc(v), nd(eng, st, a[1]), nd(eng, st, a[2])))
TAB[("AddAssign", "add_assign")] = TAB[("str", "push_str")]
TAB[("Add", "add")] = lambda eng, ins, a, st: apply(lambda x, y: leaf(cat(x, y)), nd(eng, st, a[0]), nd(eng, st, a[1]))


@model(("str", "truncate"))
def m_truncate(eng, ins, a, st):
    s, n = nd(eng, st, a[0]), nd(eng, st, a[1])
    if eng.opts.get("sites"):
        st.g = eng.panic(st, apply(lambda x, k: AND(le(k, slen(x)), NOT(bnd(x, k))), s, n), "truncate", (s, n))

    def f(x, k):
        if ge0s(add(slen(x), k, 1, -1)):
            return leaf(sslice(x, c(0), k))
        return ite(le(k, slen(x)), leaf(sslice(x, c(0), k)), leaf(x))
    # inside a match found in x the bound is known
    eng.store_ptr(st, a[0], apply(lambda x, k: leaf(sslice(x, c(0), k)) if known_le(k, x) else f(x, k), s, n))
    return Agg(None, {})


def known_le(k, x):
    """k <= len(x) by construction of k"""
    kk, d = lin_parts(k)
    ps = [a for a in d if a.op == "pos" and a.args[1] is x]
    if len(ps) == 1 and (k is ps[0] or k is add(ps[0], utf8len(ps[0].args[0]))):
        return True
    if kk <= 0 and len(d) == 1:
        a, co = next(iter(d.items()))
        if co == 1 and a.op in ("find", "rfind") and a.args[0] is x:
            return True
        if co == 1 and a.op in ("ms", "me") and match_text(a.args[0]) is x:
            return True
        if co == 1 and a.op == "sum" and a.args[0].op == "twhile" and a.args[0].args[0] is t("chars", x):
            return True
    return False


@model(("str", "drain"))
def m_drain(eng, ins, a, st):
    s = nd(eng, st, a[0])
    r = raw(eng, st, a[1])
    lo = enc(r.f["start"]) if isinstance(r, Agg) and "start" in r.f else cn(0)
    hi = enc(r.f["end"]) if isinstance(r, Agg) and "end" in r.f else apply(lambda x: leaf(slen(x)), s)
    if isinstance(r, Agg) and "end" in r.f and r.ty is not None and "Inclusive" in r.ty.s:
        hi = apply(lambda x: leaf(add(x, c(1))), hi)
    slice_site(eng, st, s, lo, hi, "drain")
    eng.store_ptr(st, a[0], apply(lambda x, i, j: leaf(cat(sslice(x, c(0), i), sslice(x, j, slen(x)))), s, lo, hi))
    return IterV(("chars", apply(lambda x, i, j: leaf(sslice(x, i, j)), s, lo, hi)))


@model(("str", "split_off"))
def m_split_off(eng, ins, a, st):
    s, i = nd(eng, st, a[0]), enc(a[1])
    hi = apply(lambda x: leaf(slen(x)), s)
    slice_site(eng, st, s, i, hi, "split_off")
    eng.store_ptr(st, a[0], apply(lambda x, j: leaf(sslice(x, c(0), j)), s, i))
    return apply(lambda x, j: leaf(sslice(x, j, slen(x))), s, i)


@model(("iter", "eq"), ("iter", "ne"))
def m_iter_eq(eng, ins, a, st):
    x, y = [i if isinstance(i, IterV) else to_iter(eng, st, i) for i in (raw(eng, st, a[0]), raw(eng, st, a[1]))]
    name = short(ins["name"])
    if all(isinstance(i, IterV) and not i.stages and i.src[0] in ("chars", "bytes", "seq") for i in (x, y)) and x.rev == y.rev and x.src[0] == y.src[0]:
        r = eqv(x.src[1], y.src[1])
        return NOT(r) if name == "ne" else r
    return eng.unknown_call("iter." + name, a, st)


@model(("str", "pop"))
def m_pop(eng, ins, a, st):
    s = nd(eng, st, a[0])
    ne = apply(nonempty, s)
    eng.store_ptr(st, a[0], ite(ne, apply(lambda x: leaf(sslice(x, c(0), add(slen(x), utf8len(chlast(x)), 1, -1))), s), s))
    return option(ne, apply(lambda x: leaf(chlast(x)), s), CHAR)


@model(("str", "remove"))
def m_remove(eng, ins, a, st):
    s, i = nd(eng, st, a[0]), nd(eng, st, a[1])
    if i.atom is None and zero(i.leaf):
        st.g = eng.panic(st, NOT(apply(nonempty, s)), "remove", (s,))
        eng.store_ptr(st, a[0], apply(lambda x: leaf(sslice(x, utf8len(chfirst(x)), slen(x))), s))
        return apply(lambda x: leaf(chfirst(x)), s)
    eng.store_ptr(st, a[0], unk("remove", s, i))
    return unk("removed", s, i)


# ------------------------------------------------------------------ chars and numbers
def rng_cond(*rs):
    def f(x):
        return OR(*[AND(le(c(lo), x), le(x, c(hi))) for lo, hi in rs])
    return f


DIG, UP, LO = (48, 57), (65, 90), (97, 122)


def chm(name, f):
    TAB[("char", name)] = lambda eng, ins, a, st: apply(f, nd(eng, st, a[0]))
    TAB[("u8", name)] = TAB[("char", name)]


chm("is_ascii_digit", rng_cond(DIG))
chm("is_ascii_alphabetic", rng_cond(UP, LO))
chm("is_ascii_uppercase", rng_cond(UP))
chm("is_ascii_lowercase", rng_cond(LO))
chm("is_ascii_alphanumeric", rng_cond(DIG, UP, LO))
chm("is_ascii", lambda x: le(x, c(127)))
for n_ in ("is_alphabetic", "is_numeric", "is_alphanumeric", "is_whitespace", "is_uppercase", "is_lowercase"):
    chm(n_, lambda x, n_=n_: var(t(n_, x)))
chm("to_ascii_uppercase", lambda x: CONS["upper"](x))
chm("to_ascii_lowercase", lambda x: CONS["lower"](x))
chm("is_control", rng_cond((0, 31), (127, 159)))
chm("is_ascii_control", rng_cond((0, 31), (127, 127)))
chm("is_ascii_whitespace", rng_cond((9, 10), (12, 13), (32, 32)))
chm("is_ascii_punctuation", rng_cond((33, 47), (58, 64), (91, 96), (123, 126)))
chm("is_ascii_graphic", rng_cond((33, 126)))
chm("is_ascii_hexdigit", rng_cond(DIG, (65, 70), (97, 102)))
chm("len_utf8", lambda x: leaf(utf8len(x)))
TAB[("char", "to_digit")] = lambda eng, ins, a, st: option(apply(rng_cond(DIG), nd(eng, st, a[0])), apply(lambda x: leaf(add(x, c(48), 1, -1)), nd(eng, st, a[0]))) if enc(a[1]) is cn(10) else unk("to_digit", enc(a[0]))
TAB[("*", "is_decimal_utf8")] = lambda eng, ins, a, st: apply(lambda x: var(t("isdec", x)), nd(eng, st, a[0]))
TAB[("*", "to_decimal_utf8")] = lambda eng, ins, a, st: option(apply(lambda x: var(t("isdec", x)), nd(eng, st, a[0])), apply(lambda x: leaf(t("todec", x)), nd(eng, st, a[0])))
TAB["vspec::types::decimal"] = TAB[("*", "to_decimal_utf8")]
TAB["vspec::types::normalize_decimals_filtering"] = TAB["dec_from_char::normalize_decimals_filtering"] = lambda eng, ins, a, st: apply(lambda x: leaf(t("decfilt", x, ty=STR)), nd(eng, st, a[0]))
TAB[("dec_from_char", "normalize_decimals_filtering")] = TAB["dec_from_char::normalize_decimals_filtering"]


def _equpper(x, y):
    if y.op in ("upper", "lower") and x.op == "c":
        x, y = y, x
    if x.op in ("upper", "lower") and y.op == "c" and isinstance(y.args[0], int):
        k, z = y.args[0], x.args[0]
        isu, isl = 65 <= k <= 90, 97 <= k <= 122
        if x.op == "upper":
            return FALSE if isl else OR(eq(z, c(k)), eq(z, c(k + 32))) if isu else eq(z, c(k))
        return FALSE if isu else OR(eq(z, c(k)), eq(z, c(k - 32))) if isl else eq(z, c(k))
    if x.op == "byte" and y.op == "c" and isinstance(y.args[0], int) and y.args[0] < 128 and zero(x.args[1]):
        return eq(chfirst(x.args[0]), y)
    return None


EQRULES.insert(0, _equpper)


@model(("Buffer", "format"))
def m_itoa(eng, ins, a, st):
    return apply(lambda x: leaf(itoa(x)), nd(eng, st, a[1]))


TAB[("Buffer", "new")] = lambda eng, ins, a, st: leaf(t("itoabuf"))


def intty(s):
    return Types({"types": []})._intern(s, "uint" if s[0] == "u" else "int")


def parse_int(eng, s, tyn):
    ity = intty(tyn)
    rt = res_ty(ity, Types({"types": []})._intern("ParseIntError", "other"))
    okc = apply(lambda x: parses(x, tyn), s)
    return Enum(rt, ite(okc, cn("Ok"), cn("Err")), {"Ok": {"0": apply(lambda x: leaf(atoi(x, ity)), s)}, "Err": {"0": apply(lambda x: leaf(t("parseerr", tyn, x)), s)}})


def parses(x, tyn):
    if isc(x):
        try:
            k = int(x.args[0])
            lo, hi = RNG[tyn]
            return TRUE if lo <= k <= hi else FALSE
        except ValueError:
            return FALSE
    return var(t("parses", tyn, x))


def atoi(x, ity):
    if isc(x) and x.args[0].lstrip("-").isdigit():
        return c(int(x.args[0]))
    if x.op == "itoa":
        return x.args[0]
    return t("atoi", x, ty=ity)


CONS["parses"] = lambda ty, x: parses(x, ty)
CONS["atoi"] = lambda x: leaf(atoi(x, None))


@model(("i32", "from_str_radix"), ("u64", "from_str_radix"), ("u32", "from_str_radix"), ("usize", "from_str_radix"), ("i64", "from_str_radix"))
def m_fsr(eng, ins, a, st):
    tyn = parse_name(ins["name"])[0].strip()
    if enc(a[1]) is not cn(10):
        return unk("from_str_radix", nd(eng, st, a[0]))
    return parse_int(eng, nd(eng, st, a[0]), tyn)


@model(("str", "parse"), ("FromStr", "from_str"))
def m_parse(eng, ins, a, st):
    m = re.search(r"parse::<(\w+)>", ins["name"])
    tyn = m.group(1) if m else parse_name(ins["name"])[0]
    if tyn in RNG:
        return parse_int(eng, nd(eng, st, a[0]), tyn)
    return unk("parse", nd(eng, st, a[0]))


def numop(name, f):
    for ty in RNG:
        TAB[(ty, name)] = f


numop("saturating_sub", lambda eng, ins, a, st: satsub(parse_name(ins["name"])[0], nd(eng, st, a[0]), nd(eng, st, a[1])))


def satsub(ty, x, y):
    if ty.startswith("u"):
        return apply(lambda p, q: ite(le(q, p), leaf(add(p, q, 1, -1)), cn(0)), x, y)
    return apply(lambda p, q: leaf(add(p, q, 1, -1)), x, y)


numop("saturating_add", lambda eng, ins, a, st: apply(lambda p, q: leaf(add(p, q)), nd(eng, st, a[0]), nd(eng, st, a[1])))
numop("wrapping_add", lambda eng, ins, a, st: apply(lambda p, q: leaf(add(p, q)), nd(eng, st, a[0]), nd(eng, st, a[1])))
numop("wrapping_sub", lambda eng, ins, a, st: apply(lambda p, q: leaf(add(p, q, 1, -1)), nd(eng, st, a[0]), nd(eng, st, a[1])))
numop("checked_sub", lambda eng, ins, a, st: option(apply(lambda p, q: le(q, p) if parse_name(ins["name"])[0].startswith("u") else TRUE, nd(eng, st, a[0]), nd(eng, st, a[1])), apply(lambda p, q: leaf(add(p, q, 1, -1)), nd(eng, st, a[0]), nd(eng, st, a[1]))))
numop("checked_add", lambda eng, ins, a, st: option(TRUE, apply(lambda p, q: leaf(add(p, q)), nd(eng, st, a[0]), nd(eng, st, a[1]))))
numop("max", lambda eng, ins, a, st: apply(lambda p, q: ite(le(p, q), leaf(q), leaf(p)), nd(eng, st, a[0]), nd(eng, st, a[1])))
numop("min", lambda eng, ins, a, st: apply(lambda p, q: ite(le(p, q), leaf(p), leaf(q)), nd(eng, st, a[0]), nd(eng, st, a[1])))
numop("pow", lambda eng, ins, a, st: apply(lambda p, q: cn(p.args[0] ** q.args[0]) if p.op == q.op == "c" else leaf(t("pow", p, q)), nd(eng, st, a[0]), nd(eng, st, a[1])))
TAB[("Ord", "max")] = TAB[("usize", "max")]
TAB[("Ord", "min")] = TAB[("usize", "min")]
TAB[("cmp", "max")] = TAB[("usize", "max")]
TAB[("cmp", "min")] = TAB[("usize", "min")]


@model(("TryFrom", "try_from"), ("TryInto", "try_into"))
def m_tryfrom(eng, ins, a, st):
    recv, trait, m = parse_name(ins["name"])
    tgt = recv if m == "try_from" else trait[trait.find("<") + 1:-1]
    x = nd(eng, st, a[0])
    if tgt not in RNG:
        return unk("try_from", x)
    lo, hi = RNG[tgt]
    ok = apply(lambda p: AND(le(c(lo), p), le(p, c(hi)) if hi < 2**63 else TRUE), x)
    rt = res_ty(intty(tgt), Types({"types": []})._intern("TryFromIntError", "other"))
    return Enum(rt, ite(ok, cn("Ok"), cn("Err")), {"Ok": {"0": x}, "Err": {"0": leaf(t("tryfromerr"))}})


m_tryfrom.cond = lambda recv, trait, m, name: (recv if m == "try_from" else trait[trait.find("<") + 1:-1]) in RNG


# ------------------------------------------------------------------ regex
def re_of(eng, st, v):
    """regex value -> node of pattern terms"""
    v = nd(eng, st, v)

    def f(x):
        if x.op == "re":
            p = x.args[0]
            return cn(rx.canon(p.args[0])) if p.op == "c" else anchored(p)
        return leaf(t("patof", x))
    return apply(f, v)


def anchored(p):
    return leaf(p)


REGEX = Types({"types": []})._intern("Regex", "other")
MATCH = Types({"types": []})._intern("Match", "other")
CAPS = Types({"types": []})._intern("Captures", "other")


@model(("Regex", "new"))
def re_new(eng, ins, a, st):
    p = nd(eng, st, a[0])
    eng.event(st, "compile", p)
    r = apply(lambda x: leaf(t("re", x, ty=REGEX)), p)
    if eng.opts.get("regex_may_fail"):
        bad = apply(lambda x: FALSE if isc(x) else var(t("badre", x)), p)
        rt = res_ty(REGEX, Types({"types": []})._intern("Error", "other"))
        return Enum(rt, ite(bad, cn("Err"), cn("Ok")), {"Ok": {"0": r}, "Err": {"0": leaf(t("reerr"))}})
    return okv(r, REGEX, Types({"types": []})._intern("Error", "other"))


@model(("RegexCache", "get_regex"))
def get_regex(eng, ins, a, st):
    if eng.opts.get("raw_cache"):
        return None
    p = nd(eng, st, a[1])
    eng.event(st, "compile", p)
    return okv(apply(lambda x: leaf(t("re", x, ty=REGEX)), p), REGEX, Types({"types": []})._intern("InvalidRegexError", "other"))


def fullm(p, s):
    return var(t("full", p, s))


CONS["full"] = fullm
CONS["start"] = lambda p, s: var(t("start", p, s))
CONS["found"] = lambda p, s: var(t("found", p, s))


@model(("RegexFullMatch", "full_match"), ("Regex", "full_match"))
def m_full(eng, ins, a, st):
    p = re_of(eng, st, a[0])
    eng.event(st, "fullmatch", p)
    return apply(fullm, p, nd(eng, st, a[1]))


@model(("RegexConsume", "matches_start"), ("Regex", "matches_start"))
def m_start(eng, ins, a, st):
    return apply(lambda p, s: var(t("start", p, s)), re_of(eng, st, a[0]), nd(eng, st, a[1]))


@model(("RegexConsume", "find_start"), ("Regex", "find_start"))
def m_find_start(eng, ins, a, st):
    p, s = re_of(eng, st, a[0]), nd(eng, st, a[1])
    return option(apply(lambda p, s: var(t("start", p, s)), p, s), apply(lambda p, s: leaf(t("m", p, s, "start", ty=MATCH)), p, s), MATCH)


@model(("RegexConsume", "captures_start"), ("Regex", "captures_start"))
def m_caps_start(eng, ins, a, st):
    p, s = re_of(eng, st, a[0]), nd(eng, st, a[1])
    return option(apply(lambda p, s: var(t("start", p, s)), p, s), apply(lambda p, s: leaf(t("caps", p, s, "start", ty=CAPS)), p, s), CAPS)


@model(("Regex", "is_match"))
def m_is_match(eng, ins, a, st):
    return apply(lambda p, s: var(t("found", p, s)), re_of(eng, st, a[0]), nd(eng, st, a[1]))


@model(("Regex", "find"))
def m_re_find(eng, ins, a, st):
    p, s = re_of(eng, st, a[0]), nd(eng, st, a[1])
    return option(apply(lambda p, s: var(t("found", p, s)), p, s), apply(lambda p, s: leaf(t("m", p, s, "find", ty=MATCH)), p, s), MATCH)


@model(("Regex", "captures"))
def m_re_caps(eng, ins, a, st):
    p, s = re_of(eng, st, a[0]), nd(eng, st, a[1])
    return option(apply(lambda p, s: var(t("found", p, s)), p, s), apply(lambda p, s: leaf(t("caps", p, s, "find", ty=CAPS)), p, s), CAPS)


@model(("Regex", "as_str"))
def m_re_str(eng, ins, a, st):
    return re_of(eng, st, a[0])


TAB[("Regex", "captures_iter")] = lambda eng, ins, a, st: IterV(("capsiter", re_of(eng, st, a[0]), nd(eng, st, a[1]), CAPS))
TAB[("Regex", "find_iter")] = lambda eng, ins, a, st: IterV(("finditer", re_of(eng, st, a[0]), nd(eng, st, a[1]), MATCH))


def ms(m):
    if m.op == "m" and m.args[2] == "start":
        return c(0)
    if m.op == "grpm" and m.args[1] is c(0) and m.args[0].op == "caps" and m.args[0].args[2] == "start":
        return c(0)
    if m.op == "grpm" and m.args[1] is c(0) and m.args[0].op == "caps":
        return ms(t("m", m.args[0].args[0], m.args[0].args[1], m.args[0].args[2]))
    return t("ms", m)


def me(m):
    if m.op == "grpm" and m.args[1] is c(0) and m.args[0].op == "caps":
        return me(t("m", m.args[0].args[0], m.args[0].args[1], m.args[0].args[2]))
    return t("me", m)


def mstr(m):
    x = match_text(m)
    if x is not None:
        return sslice(x, ms(m), me(m))
    return t("mstr", m)


CONS["ms"] = lambda m: leaf(ms(m))
CONS["me"] = lambda m: leaf(me(m))
CONS["mstr"] = lambda m: leaf(mstr(m))
TAB[("Match", "start")] = lambda eng, ins, a, st: apply(lambda m: leaf(ms(m)), nd(eng, st, a[0]))
TAB[("Match", "end")] = lambda eng, ins, a, st: apply(lambda m: leaf(me(m)), nd(eng, st, a[0]))
TAB[("Match", "as_str")] = lambda eng, ins, a, st: apply(lambda m: leaf(mstr(m)), nd(eng, st, a[0]))
TAB[("Match", "len")] = lambda eng, ins, a, st: apply(lambda m: leaf(slen(mstr(m))), nd(eng, st, a[0]))
TAB[("Match", "is_empty")] = lambda eng, ins, a, st: apply(lambda m: NOT(nonempty(mstr(m))), nd(eng, st, a[0]))
TAB[("Match", "range")] = lambda eng, ins, a, st: Agg(Types({"types": []})._intern("Range", "other"), {"start": apply(lambda m: leaf(ms(m)), nd(eng, st, a[0])), "end": apply(lambda m: leaf(me(m)), nd(eng, st, a[0]))})


@model(("Captures", "get"))
def m_cap_get(eng, ins, a, st):
    return group(nd(eng, st, a[0]), nd(eng, st, a[1]))


def ngroups(x):
    """how many groups a match has, the whole match included"""
    if x.op == "caps" and x.args[0].op == "c":
        try:
            from . import rx
            return c(1 + rx.parse(x.args[0].args[0])[1])
        except Exception:
            pass
    return t("ngroups", x.args[0] if x.op == "caps" else x)


def group(cp, i):
    def cond(x, k):
        if zero(k):
            return TRUE
        return var(t("grp", x, k))
    return option(apply(cond, cp, i), apply(lambda x, k: leaf(t("grpm", x, k, ty=MATCH)), cp, i), MATCH)


def captures_iter_groups(eng, ins, a, st):
    cp = nd(eng, st, a[0])
    n = apply(lambda x: leaf(ngroups(x)), cp)
    if n.atom is None and n.leaf.op == "c" and n.leaf.args[0] <= 12:
        return IterV(("list", tuple(group(cp, cn(i)) for i in range(n.leaf.args[0]))))
    return IterV(("groups", cp, opt_ty(MATCH)))


TAB[("Captures", "len")] = lambda eng, ins, a, st: apply(lambda x: leaf(ngroups(x)), nd(eng, st, a[0]))
TAB[("Captures", "iter")] = captures_iter_groups


def rep_of(eng, st, v):
    v = raw(eng, st, v)
    if isinstance(v, Agg) and v.ty is not None and "NoExpand" in v.ty.s:
        return apply(lambda x: leaf(x if isc(x) and "$" not in x.args[0] else t("noexpand", x)), enc(next(iter(v.f.values()))))
    if isinstance(v, Agg) and v.inst is not None:
        return apply(lambda x: leaf(t("repfn", x)), enc(v))
    return enc(v)


def m_rereplace(which):
    def f(eng, ins, a, st):
        p, s, r = re_of(eng, st, a[0]), nd(eng, st, a[1]), rep_of(eng, st, a[2])
        eng.event(st, "template", r, p)
        return apply(lambda p, s, r: leaf(t("rerep", p, s, r, which, ty=STR)), p, s, r)
    return f


TAB[("Regex", "replace")] = m_rereplace("first")
TAB[("Regex", "replace_all")] = m_rereplace("all")


@model(("Regex", "replacen"))
def m_rereplacen(eng, ins, a, st):
    n = enc(a[2])
    if n.atom is None and n.leaf.op == "c":
        k = n.leaf.args[0]
        return m_rereplace("all" if k == 0 else "first" if k == 1 else "first %d" % k)(eng, ins, [a[0], a[1], a[3]], st)
    return eng.unknown_call("Regex::replacen", a, st)


@model(("Regex", "of"))
def m_re_of(eng, ins, a, st):
    """Regex::of of the reference definitions: every pattern compiles"""
    return apply(lambda x: leaf(t("re", x, ty=REGEX)), nd(eng, st, a[0]))


@model(("Regex", "replace_literal"))
def m_re_lit(eng, ins, a, st):
    p, s, r = re_of(eng, st, a[0]), nd(eng, st, a[1]), nd(eng, st, a[2])
    r = apply(lambda x: leaf(x if isc(x) and "$" not in x.args[0] else t("noexpand", x)), r)
    return apply(lambda p, s, r: leaf(t("rerep", p, s, r, "first", ty=STR)), p, s, r)


TAB["vspec::types::match_national_number"] = lambda eng, ins, a, st: apply(lambda x, d, p: matchdesc(x, d, p), nd(eng, st, a[0]), nd(eng, st, a[1]), enc(a[2]))


# ------------------------------------------------------------------ Option on opaque protobuf fields
@model(("MessageField", "is_some"))
def mf_some(eng, ins, a, st):
    return apply(lambda x: var(t("hasmsg", x)), nd(eng, st, a[0]))


TAB[("MessageField", "is_none")] = lambda eng, ins, a, st: NOT(mf_some(eng, ins, a, st))
TAB[("MessageField", "as_ref")] = lambda eng, ins, a, st: option(mf_some(eng, ins, a, st), raw(eng, st, a[0]), leaf_ty(raw(eng, st, a[0])))
TAB[("MessageField", "get_or_default")] = ident
TAB[("MessageField", "unwrap_or_default")] = ident


def leaf_ty(v):
    if isinstance(v, N):
        for x in leaves(v):
            if x.ty is not None:
                return x.ty
    return getattr(v, "ty", None)


# ------------------------------------------------------------------ maps
def mapget(eng, st, m, k):
    m = raw(eng, st, m)
    k = nd(eng, st, k)
    if isinstance(m, MapV):
        found, val = FALSE, None
        for key in sorted(m.d, key=lambda z: str(z.args[0])):
            e = apply(lambda x: eq(x, key), k)
            v = m.d[key]
            found = OR(found, e)
            if v is not None:
                val = v if val is None else merge(e, v, val)
        return option(found, val if val is not None else Agg(None, {}))
    m = enc(m)
    return option(apply(mhas, m, k), apply(mget, m, k))


def mhas(m, k):
    if m.op == "minsert":
        e = eq(m.args[1], k)
        return e if e is TRUE else OR(e, mhas(m.args[0], k))
    if m.op == "map" and not m.args:
        return FALSE
    return var(t("mhas", m, k))


def mget(m, k):
    if m.op == "minsert":
        e = eq(m.args[1], k)
        return leaf(m.args[2]) if e is TRUE else ite(e, leaf(m.args[2]), mget(m.args[0], k))
    return leaf(t("mget", m, k))


def minsert(m, k, v):
    if m.op == "minsert" and m.args[1] is k:
        m = m.args[0]
    return leaf(t("minsert", m, k, v))


CONS["mhas"], CONS["mget"], CONS["minsert"] = mhas, mget, minsert


def map_update(eng, v, k, f):
    """v with the value at k replaced by f(old)"""
    if isinstance(v, MapV) and k.atom is None and k.leaf.op == "c" and k.leaf in v.d:
        return MapV({**v.d, k.leaf: f(v.d[k.leaf])})
    v = enc(v)
    return apply(minsert, v, k, enc(f(apply(mget, v, k))))


def map_slot(eng, st, m, k):
    """pointers to the value at k"""
    return apply(lambda p: leaf(t("ptr", p.args[0], p.args[1], p.args[2] + (("k", k),))) if p.op == "ptr" else leaf(t("unk", "map pointer", p, weak=True)), m)


@model(("map", "get_mut"))
def map_get_mut(eng, ins, a, st):
    if not isinstance(a[0], N):
        return eng.unknown_call(ins["name"], a, st)
    k = nd(eng, st, a[1])
    return option(isv(mapget(eng, st, a[0], k), "Some"), map_slot(eng, st, a[0], k))


@model(("map", "entry"))
def map_entry(eng, ins, a, st):
    return Agg(Types({"types": []})._intern("MapEntry", "tuple"), {"m": a[0], "k": nd(eng, st, a[1])})


def entry_or(eng, ins, a, st, how):
    e = a[0]
    if not isinstance(e, Agg) or "k" not in e.f or not isinstance(e.f["m"], N):
        return eng.unknown_call(ins["name"], a, st)
    m, k = e.f["m"], e.f["k"]
    has_ = isv(mapget(eng, st, m, k), "Some")
    if has_ is not TRUE:
        if how == "with":
            d, st2 = eng.call_closure(a[1], [], st)
            if st2 is not None and st2 is not st:
                st.m = st2.m
        elif how == "default":
            d = ListV(()) if re.search(r"Vec(Deque)?<", ins["name"]) else fresh_unk("default of an entry")
        else:
            d = a[1]
        old = raw(eng, st, m)
        new = MapV({**old.d, k.leaf: d}) if isinstance(old, MapV) and k.atom is None and k.leaf.op == "c" else apply(minsert, enc(old), k, enc(d))
        eng.store_ptr(st, m, new if has_ is FALSE else merge(has_, old, new))
    return map_slot(eng, st, m, k)


TAB[("Entry", "or_insert_with")] = lambda eng, ins, a, st: entry_or(eng, ins, a, st, "with")
TAB[("Entry", "or_insert")] = lambda eng, ins, a, st: entry_or(eng, ins, a, st, "value")
TAB[("Entry", "or_default")] = lambda eng, ins, a, st: entry_or(eng, ins, a, st, "default")


def typed_mapget(eng, ins, a, st):
    r = mapget(eng, st, a[0], a[1])
    return r


TAB[("map", "get")] = typed_mapget
TAB[("map", "contains_key")] = lambda eng, ins, a, st: isv(mapget(eng, st, a[0], a[1]), "Some")
TAB[("map", "contains")] = TAB[("map", "contains_key")]
TAB[("map", "new")] = TAB[("map", "with_capacity")] = lambda eng, ins, a, st: MapV({})
TAB[("map", "len")] = lambda eng, ins, a, st: cn(len(raw(eng, st, a[0]).d)) if isinstance(raw(eng, st, a[0]), MapV) else apply(lambda x: leaf(t("maplen", x)), nd(eng, st, a[0]))
TAB[("map", "is_empty")] = lambda eng, ins, a, st: (TRUE if not raw(eng, st, a[0]).d else FALSE) if isinstance(raw(eng, st, a[0]), MapV) else apply(lambda x: NOT(ge0(add(t("maplen", x), c(1), 1, -1))), nd(eng, st, a[0]))


@model(("map", "insert"))
def map_insert(eng, ins, a, st):
    m = raw(eng, st, a[0])
    k = nd(eng, st, a[1])
    v = raw(eng, st, a[2]) if len(a) > 2 else None
    if isinstance(m, MapV) and k.atom is None and k.leaf.op in ("c", "mk"):
        d = dict(m.d)
        d[k.leaf] = v
        eng.store_ptr(st, a[0], MapV(d))
        return none() if len(a) > 2 else TRUE
    nv = apply(minsert, enc(m), k, enc(v) if v is not None else cn(True))
    eng.store_ptr(st, a[0], nv)
    return none() if len(a) > 2 else apply(lambda x, y: var(t("unk", "inserted", x, y, weak=True)), enc(m), k)


def map_items(m, what):
    items = []
    for k in sorted(m.d, key=lambda z: str(z.args[0])):
        if what == "keys":
            items.append(leaf(k))
        elif what == "values":
            items.append(m.d[k])
        else:
            ty = Types({"types": []})._intern("(?,?)", "tuple")
            ty.fields = ty.fields or {"0": None, "1": None}
            items.append(Agg(ty, {"0": leaf(k), "1": m.d[k]}) if m.d[k] is not None else leaf(k))
    return IterV(("list", tuple(items)))


def map_iter(what):
    def f(eng, ins, a, st):
        m = raw(eng, st, a[0])
        eng.event(st, "hashorder", what)
        if isinstance(m, MapV):
            return map_items(m, what)
        if what == "iter" and "BTreeMap<" in ins["name"]:
            # in the order of the keys
            def f1(x):
                loops._w[0] += 1
                w = "s%d" % loops._w[0]
                el = t("elem", w)
                w2 = w + "k"
                return leaf(loops.mksortby(t("items", loops.mklmap(t("mapiter", x), leaf(t("list", t("elem", w2))), w2).leaf), leaf(mkfld1(el, "0")), w))
            return IterV(("seq", apply(f1, enc(m)), None))
        if what in ("keys", "values") and not re.search(r"(Hash|BTree)Set<", ins["name"]):
            return IterV(("mapiter", enc(m), None), False, (("part", "0" if what == "keys" else "1"),))
        return IterV(("map" + what, enc(m), None))
    return f


def mkfld1(x, f):
    r = mkfld(x, f, None)
    return r.leaf if isinstance(r, N) else r


for w_ in ("keys", "values", "iter"):
    TAB[("map", w_)] = map_iter(w_)
TAB[("map", "into_iter")] = map_iter("iter")
TAB[("map", "into_keys")] = map_iter("keys")
TAB[("map", "into_values")] = map_iter("values")


# ------------------------------------------------------------------ sequences
@model(("seq", "push"), ("seq", "push_back"))
def m_push(eng, ins, a, st):
    v = raw(eng, st, a[0])
    x = a[1]
    if isinstance(v, ListV):
        eng.store_ptr(st, a[0], ListV(v.items + (x,), v.ty))
    else:
        eng.store_ptr(st, a[0], apply(lambda s, y: leaf(lcat(s, t("list", y))), enc(v), enc(x)))
    return Agg(None, {})


@model(("seq", "insert"))
def m_insert_at(eng, ins, a, st):
    v, i = raw(eng, st, a[0]), enc(a[1])
    if i is cn(0):
        return m_pushf(eng, ins, [a[0], a[2]], st)
    eng.store_ptr(st, a[0], apply(lambda s, j, y: leaf(t("linsert", s, j, y)), enc(v), i, enc(a[2])))
    return Agg(None, {})


@model(("seq", "push_front"))
def m_pushf(eng, ins, a, st):
    v = raw(eng, st, a[0])
    if isinstance(v, ListV):
        eng.store_ptr(st, a[0], ListV((a[1],) + v.items, v.ty))
    else:
        eng.store_ptr(st, a[0], apply(lambda s, y: leaf(lcat(t("list", y), s)), enc(v), enc(a[1])))
    return Agg(None, {})


def m_extend_seq(eng, st, p, other):
    v = raw(eng, st, p)
    o = raw(eng, st, other)
    if isinstance(v, ListV) and isinstance(o, ListV):
        eng.store_ptr(st, p, ListV(v.items + o.items, v.ty))
    else:
        eng.store_ptr(st, p, apply(lambda s, y: leaf(lcat(s, y)), enc(v), enc(o)))
    return Agg(None, {})


TAB[("seq", "extend_from_slice")] = lambda eng, ins, a, st: m_extend_seq(eng, st, a[0], a[1])
TAB[("seq", "append")] = lambda eng, ins, a, st: m_extend_seq(eng, st, a[0], a[1])
TAB[("seq", "sort")] = TAB[("seq", "sort_unstable")] = lambda eng, ins, a, st: mut(eng, st, a[0], lambda v: apply(lambda x: leaf(x if x.op == "sort" else t("sort", x, ty=x.ty)), enc(v)))


@model(("seq", "sort_by_key"), ("seq", "sort_unstable_by_key"), ("seq", "sort_by_cached_key"))
def m_sort_by_key(eng, ins, a, st):
    loops._w[0] += 1
    w = "s%d" % loops._w[0]
    v = raw(eng, st, a[0])
    ety = elem_ty(eng, enc(v))
    m = re.search(r"\[(.*)\]>::sort", ins["name"])
    el = t("elem", w, ty=ety)
    r, st2 = eng.call_closure(a[1], [opaque(el, ety) if ety is not None else leaf(el)], st)
    eng.store_ptr(st, a[0], apply(lambda x: leaf(loops.mksortby(t("items", x), enc(r), w)), enc(v)))
    return Agg(None, {})

TAB[("seq", "first")] = lambda eng, ins, a, st: seq_end(eng, raw(eng, st, a[0]), 0)
TAB[("seq", "last")] = lambda eng, ins, a, st: seq_end(eng, raw(eng, st, a[0]), -1)
TAB[("seq", "front")] = TAB[("seq", "first")]
TAB[("seq", "back")] = TAB[("seq", "last")]


def seq_end(eng, v, k):
    if isinstance(v, ListV):
        return some(v.items[k]) if v.items else none()
    n = enc(v)
    ety = elem_ty(eng, n)
    return option(apply(nonempty, n), apply(lambda x: at(x, c(0) if k == 0 else add(slen(x), c(1), 1, -1), ety), n), ety)


@model(("seq", "get"))
def m_seq_get(eng, ins, a, st):
    v, i = raw(eng, st, a[0]), raw(eng, st, a[1])
    if not isinstance(i, N):
        return m_str_get(eng, ins, a, st)
    ety = elem_ty(eng, enc(v))
    return option(apply(lambda l, k: lt(k, l), seqlen(eng, v), i), index(eng, v, i, ety), ety)


@model(("seq", "contains"))
def m_seq_contains(eng, ins, a, st):
    v, x = raw(eng, st, a[0]), raw(eng, st, a[1])
    if isinstance(v, ListV):
        return OR(*[eqv(y, x) for y in v.items])
    n = enc(v)
    ety = elem_ty(eng, n)
    loops._w[0] += 1
    w = "p%d" % loops._w[0]
    e = opaque(t("elem", w, ty=ety), ety)
    E = eqv(e, x)
    return apply(lambda s: mkany(t("items", s), E, w), n)


@model(("seq", "sort_by"), ("seq", "sort_unstable_by"))
def m_sort_by(eng, ins, a, st):
    v = raw(eng, st, a[0])
    ety = elem_ty(eng, enc(v))
    loops._w[0] += 1
    w, u = "s%d" % loops._w[0], "u%d" % loops._w[0]
    x, y = opaque(t("elem", w, ty=ety), ety), opaque(t("elem", u, ty=ety), ety)
    r, _ = eng.call_closure(a[1], [x, y], st)
    if isinstance(r, N) and r.atom is None and r.leaf.op == "unk" and r.leaf.args[0] == "cmp" and len(r.leaf.args) == 3:
        # texts in their natural order, or the other way round
        p, q = (getattr(z, "leaf", z) for z in r.leaf.args[1:])
        ex, ey = enc(x), enc(y)
        if (leaf(p), leaf(q)) in ((ex, ey), (ey, ex)):
            so = apply(lambda v: leaf(v if v.op == "sort" else t("sort", v, ty=v.ty)), enc(v))
            eng.store_ptr(st, a[0], so if leaf(p) is ex else apply(lambda v: leaf(t("rev", v)), so))
            return Agg(None, {})
    r = enc(r.d) if isinstance(r, Enum) else None
    # less exactly when one integer taken from x is below the same taken from y
    key = None
    if r is not None:
        c1 = cond_of(r, lambda z: z is c("Less"))
        if c1.atom is not None and c1.atom.op == "ge":
            k, d = lin_parts(c1.atom.args[0])
            for z, co in d.items():
                if co in (1, -1) and t("elem", w) in subterms(z) and len(d) == 2:
                    o = next(q for q in d if q is not z)
                    if loops.subst(leaf(z), {t("elem", w): leaf(t("elem", u))}) is leaf(o) and ordering(eng, leaf(z), leaf(o)).d is r:
                        key = (z, 1)
                    elif loops.subst(leaf(z), {t("elem", w): leaf(t("elem", u))}) is leaf(o) and ordering(eng, leaf(o), leaf(z)).d is r:
                        key = (z, -1)
    if key is None:
        return eng.unknown_call("sort_by", a, st)
    eng.store_ptr(st, a[0], apply(lambda q: leaf(loops.mksortby(t("items", q), leaf(mulc(key[0], key[1])), w)), enc(v)))
    return Agg(None, {})


@model(("seq", "binary_search_by"))
def m_bsearch_by(eng, ins, a, st):
    v = nd(eng, st, a[0])
    ety = elem_ty(eng, v)
    loops._w[0] += 1
    w = "p%d" % loops._w[0]
    e = opaque(t("elem", w, ty=ety), ety)
    r, _ = eng.call_closure(a[1], [e], st)
    if not isinstance(r, Enum):
        return eng.unknown_call("binary_search_by", a, st)
    E = cond_of(r.d, lambda z: z is c("Equal"))
    L = cond_of(r.d, lambda z: z is c("Less"))
    el = t("elem", w)

    def up(n):
        """ascending order is needed: below the key where the element is smaller"""
        if n.atom is None:
            return True
        if el not in subterms(n.atom):
            return up(n.hi) and up(n.lo)
        d = lin_parts(n.atom.args[0])[1] if n.atom.op == "ge" else {}
        mine = [co for z, co in d.items() if el in subterms(z)]
        return len(mine) == 1 and (n.hi is FALSE and n.lo is TRUE and mine[0] > 0 or n.hi is TRUE and n.lo is FALSE and mine[0] < 0)
    if L.atom is None or not up(L):
        return eng.unknown_call("binary_search_by", a, st)
    from .compare import sat, Weak, Budget
    E2 = restrict(E, NOT(L))
    try:
        if sat(AND(E, L)) is not None:
            return eng.unknown_call("binary_search_by", a, st)
        if sat(AND(E2, L)) is None:
            E = E2
    except (Weak, Budget, TooBig):
        return eng.unknown_call("binary_search_by", a, st)
    cond = apply(lambda s: mkany(t("items", s), E, w), v)
    rt = res_ty(USIZE, USIZE)
    idx = apply(lambda s: apply(lambda f: leaf(t("idxof", s, f)), loops.mkfirst(t("items", s), E, w)), v)
    return Enum(rt, ite(cond, cn("Ok"), cn("Err")), {"Ok": {"0": idx}, "Err": {"0": leaf(t("bsins", v, E))}})


@model(("seq", "binary_search_by_key"))
def m_bsearch(eng, ins, a, st):
    v, k = nd(eng, st, a[0]), nd(eng, st, a[1])
    ety = elem_ty(eng, v)
    # key function applied to a generic element
    loops._w[0] += 1
    w = "p%d" % loops._w[0]
    e = opaque(t("elem", w, ty=ety), ety)
    kv, _ = eng.call_closure(a[2], [e], st)
    E = eqv(enc(kv), k)
    cond = apply(lambda s: mkany(t("items", s), E, w), v)
    rt = res_ty(USIZE, USIZE)
    idx = apply(lambda s: apply(lambda f: leaf(t("idxof", s, f)), loops.mkfirst(t("items", s), E, w)), v)
    return Enum(rt, ite(cond, cn("Ok"), cn("Err")), {"Ok": {"0": idx}, "Err": {"0": leaf(t("bsins", v, k))}})


# ------------------------------------------------------------------ iterators
@model(("seq", "iter_mut"))
def m_iter_mut(eng, ins, a, st):
    v = raw(eng, st, a[0])
    p = a[0].leaf if isinstance(a[0], N) and a[0].atom is None else None
    if isinstance(v, ListV) and p is not None and p.op == "ptr":
        ety = getattr(v.ty, "sub", None)
        return IterV(("list", tuple(leaf(t("ptr", p.args[0], p.args[1], p.args[2] + (("i", cn(i), ety, v.ty),))) for i in range(len(v.items)))))
    eng.note("store through an opaque pointer (iter_mut)")
    return to_iter(eng, st, a[0])


@model(("seq", "iter"), ("seq", "into_iter"))
def m_iter(eng, ins, a, st):
    return to_iter(eng, st, a[0])


def opt_iter(v):
    g = isv(v, "Some")
    if g is FALSE:
        return IterV(("list", ()))
    x = payload(v, "Some", "0")
    return IterV(("list", (x,))) if g is TRUE else IterV(("gated", ((g, x),)))


def to_iter(eng, st, v0, rng=None):
    v = raw(eng, st, v0)
    if isinstance(v, IterV):
        return v0 if isinstance(v0, N) else v
    if isinstance(v, ListV):
        return IterV(("list", v.items))
    if isinstance(v, MapV):
        return map_items(v, "iter")
    if isinstance(v, Agg) and v.ty is not None and re.search(r"Range(Inclusive)?(<|$)", v.ty.s) and "start" in v.f:
        hi = enc(v.f["end"])
        incl = "Inclusive" in v.ty.s
        if incl:
            hi = apply(lambda x: leaf(add(x, c(1))), hi)
        return IterV(("range", enc(v.f["start"]), hi))
    if isinstance(v, Enum) and v.ty.name == "Option":
        return opt_iter(v)
    if isinstance(v, N) and leaf_ty(v) is not None and leaf_ty(v).name == "Option":
        return opt_iter(expand(v, leaf_ty(v)))
    if isinstance(v, N):
        ety = elem_ty(eng, v)
        xs = leaves(v)
        if len(xs) == 1 and xs[0].op == "list":
            return IterV(("list", tuple(opaque(y, ety) for y in xs[0].args)))
        if xs and xs[0].op == "bytes":
            return IterV(("bytes", apply(lambda x: leaf(x.args[0]), v)))
        return IterV(("seq", v, ety))
    return IterV(("seq", enc(v), None))


@model(("iter", "into_iter"))
def m_into_iter(eng, ins, a, st):
    recv = parse_name(ins["name"])[0]
    if re.search(r"(Hash|BTree)(Map|Set)<", recv.split(" as ")[0][:60]) and "hash_map" not in recv[:40] and "Keys" not in recv[:40]:
        return map_iter("iter")(eng, ins, a, st)
    return to_iter(eng, st, a[0])


@model(("RangeInclusive", "new"))
def m_ri(eng, ins, a, st):
    return Agg(Types({"types": []})._intern("RangeInclusive", "other"), {"start": a[0], "end": a[1]})


TAB[("RangeInclusive", "contains")] = lambda eng, ins, a, st: range_contains(eng, st, a, True)
TAB[("Range", "contains")] = lambda eng, ins, a, st: range_contains(eng, st, a, False)


def range_contains(eng, st, a, incl):
    r = raw(eng, st, a[0])
    x = nd(eng, st, a[1])
    if not isinstance(r, Agg):
        return var(t("unk", "rangecontains", enc(r), x, weak=True))
    return apply(lambda lo, hi, y: AND(le(lo, y), le(y, hi) if incl else lt(y, hi)), enc(r.f["start"]), enc(r.f["end"]), x)


# [walk whole sequences where the program walks part of one, the adaptors so passed over]
WHOLE = [False, []]


def stage(op):
    def f(eng, ins, a, st):
        it = raw(eng, st, a[0])
        if not isinstance(it, IterV):
            it = to_iter(eng, st, a[0])
        arg = a[1] if len(a) > 1 else None
        if op == "step_by" and enc(arg) is cn(1) and isinstance(it, IterV):
            return it
        if op in ("take", "skip", "step_by") and isinstance(it, IterV) and is_abstract(it):
            k = enc(arg)
            if k.atom is None and k.leaf.op == "c" and isinstance(k.leaf.args[0], int) and (op != "take" or k.leaf.args[0] <= 40) and k.leaf.args[0] > 0:
                if WHOLE[0]:
                    WHOLE[1].append("%s(%d)" % (op, k.leaf.args[0]))
                    return it
        if op == "skip" and isinstance(it, IterV):
            return skip(eng, it, enc(arg))
        if op == "rev":
            if it.stages:
                if all(s[0] in ("cidx", "win", "map", "filter", "filter_map", "flatten") for s in it.stages):
                    return IterV(it.src, not it.rev, it.stages)
                return fresh_unk("rev")
            return IterV(it.src, not it.rev)
        if op in ("by_ref",):
            return a[0]
        if op in ("copied", "cloned", "peekable", "fuse"):
            return it
        if op == "take" and it.src[0] == "list" and not it.stages and enc(arg).atom is None and enc(arg).leaf.op == "c":
            xs = it.src[1][::-1] if it.rev else it.src[1]
            return IterV(("list", xs[:enc(arg).leaf.args[0]]))
        return IterV(it.src, it.rev, it.stages + ((op, arg),))
    return f


for o_ in ("map", "filter", "filter_map", "take_while", "skip_while", "rev", "copied", "cloned", "skip", "take", "flatten", "enumerate", "inspect", "by_ref", "peekable", "fuse", "map_while", "flat_map", "chain", "zip", "step_by", "scan"):
    TAB[("iter", o_)] = stage(o_)


def skip(eng, it, n):
    if it.stages or n.atom is not None:
        return fresh_unk("skip")
    n = n.leaf
    if it.src[0] == "list" and n.op == "c":
        xs = it.src[1][::-1] if it.rev else it.src[1]
        return IterV(("list", xs[n.args[0]:]))
    if it.rev:
        return fresh_unk("skip")
    if it.src[0] == "groups":
        return IterV(("seq", apply(lambda x: leaf(t("groupsfrom", x, n)), it.src[1]), it.src[2]))
    if it.src[0] == "seq":
        return IterV(("seq", apply(lambda x: leaf(sslice(x, n, slen(x))), it.src[1]), it.src[2]))
    if it.src[0] == "chars" and n is c(1):
        return IterV(("chars", apply(lambda x: leaf(sslice(x, utf8len(chfirst(x)), slen(x))), it.src[1])))
    return fresh_unk("skip")


def is_abstract(it):
    k = it.src[0]
    if k in ("list", "gated"):
        return False
    if k == "opt":
        return False
    if k == "range":
        return not all(isinstance(x, N) and x.atom is None and x.leaf.op == "c" for x in it.src[1:3])
    if k == "chars":
        x = it.src[1]
        return not (x.atom is None and isc(x.leaf))
    if k == "seq":
        x = it.src[1]
        return not (x.atom is None and x.leaf.op == "list")
    return True


def concrete(it):
    """list of items of a concrete source (before stages), in iteration order"""
    k = it.src[0]
    if k == "list":
        xs = list(it.src[1])
    elif k == "range":
        xs = [cn(i) for i in range(it.src[1].leaf.args[0], it.src[2].leaf.args[0])]
    elif k == "chars":
        xs = [cn(ord(ch)) for ch in it.src[1].leaf.args[0]]
    elif k == "seq":
        xs = [opaque(y, it.src[2]) for y in it.src[1].leaf.args]
    return xs[::-1] if it.rev else xs


def run_stages(eng, st, stages, v):
    """pushes one element through the stages -> (pass condition, stop condition, value)"""
    ok, stop = TRUE, FALSE
    for op, f in stages:
        if op == "map":
            v, _ = eng.call_closure(f, [v], st)
        elif op == "cidx":
            ty = Types({"types": []})._intern("(usize,char)", "tuple")
            ty.fields = ty.fields or {"0": USIZE, "1": CHAR}
            v = Agg(ty, {"0": apply(lambda e, S: CONS["pos"](e, S), enc(v), f), "1": v})
        elif op == "inspect":
            eng.call_closure(f, [v], st)
        elif op == "win":
            v = apply(lambda i, S: leaf(sslice(S, add(i, c(1 - f[1])), add(i, c(1)))), enc(v), f[0])
        elif op == "part":
            v = field(v, f)
        elif op == "filter":
            r, _ = eng.call_closure(f, [v], st)
            ok = AND(ok, enc(r))
        elif op == "filter_map":
            r, _ = eng.call_closure(f, [v], st)
            ok = AND(ok, isv(r, "Some", leaf_ty(r)))
            v = payload(r, "Some", "0")
        elif op == "flatten":
            ty = getattr(v, "ty", None) or leaf_ty(v)
            if ty is not None and getattr(ty, "name", "") == "Option":
                sub = layout(ty)["Some"]["0"]
                ok = AND(ok, isv(v, "Some", ty))
                v = payload(v, "Some", "0", sub)
            else:
                return None
        elif op == "take_while":
            r, _ = eng.call_closure(f, [v], st)
            stop = OR(stop, AND(ok, NOT(enc(r))))
        elif op == "map_while":
            r, _ = eng.call_closure(f, [v], st)
            stop = OR(stop, AND(ok, NOT(isv(r, "Some", leaf_ty(r)))))
            v = payload(r, "Some", "0")
        else:
            return None
    return ok, stop, v


@model(("iter", "next"), ("iter", "next_back"))
def m_next(eng, ins, a, st):
    p = a[0]
    it = raw(eng, st, p)
    back = short(ins["name"]) == "next_back"
    if not isinstance(it, IterV):
        # a Range used directly
        if isinstance(it, Agg) and "start" in it.f:
            it = to_iter(eng, st, it)
        elif isinstance(it, N) and any(x.op == "unk" for x in leaves(it)):
            return unknown_next(eng, p, it)
        else:
            return unknown_next(eng, p, enc(it) if it is not UNDEF else leaf(t("undef")))
    if back:
        it = IterV(it.src, not it.rev, it.stages)
    pl = p.leaf if isinstance(p, N) and p.atom is None and p.leaf.op == "ptr" else None
    if not is_abstract(it) and it.src[0] not in ("opt", "gated"):
        xs = concrete(it)
        simple = not it.stages
        counted(eng, pl)
        if simple:
            def put(rest):
                rest = tuple(rest[::-1]) if it.rev else tuple(rest)
                nit = IterV(("list", rest), it.rev)
                eng.store_ptr(st, p, IterV(nit.src, not nit.rev) if back else nit)
            if not xs:
                return none()
            put(xs[1:])
            return some(xs[0])
        # staged concrete: advance to first passing element, if decidable
        i = 0
        while i < len(xs):
            r = run_stages(eng, st, it.stages, xs[i])
            if r is None:
                break
            ok, stop, v = r
            if stop is TRUE:
                eng.store_ptr(st, p, IterV(("list", ())))
                return none()
            if ok is TRUE and stop is FALSE:
                eng.store_ptr(st, p, IterV(("list", tuple(xs[i + 1:])), False, it.stages))
                return some(v)
            if ok is FALSE:
                i += 1
                continue
            break
        if i >= len(xs):
            eng.store_ptr(st, p, IterV(("list", ())))
            return none()
        # symbolic filter: expose the element list as gated values
        items = []
        for x in xs[i:]:
            r = run_stages(eng, st, it.stages, x)
            if r is None or r[1] is not FALSE:
                eng.store_ptr(st, p, fresh_unk("next"))
                return unknown_next(eng, p, enc(it))
            items.append((r[0], r[2]))
        return gated_next(eng, st, p, items)
    if it.src[0] == "gated" and (not it.rev or len(it.src[1]) < 2):
        counted(eng, pl)
        items = []
        for ok, x in it.src[1]:
            r = run_stages(eng, st, it.stages, x)
            if r is None or r[1] is not FALSE:
                eng.store_ptr(st, p, fresh_unk("next"))
                return unknown_next(eng, p, leaf(t("gatediter")))
            items.append((AND(ok, r[0]), r[2]))
        return gated_next(eng, st, p, items)
    for ctx in reversed(eng.loops):
        if pl is not None and ctx.owns(pl, raw(eng, st, p)):
            if ctx.mode == "probe":
                if ctx.calls and not it.stages:
                    break       # another, concrete iterator drives this loop
                raise NeedAbstract(ctx)
            return drive(eng, ctx, st, pl, it)
    # a single step on an abstract source
    if it.stages:
        return staged_next(eng, st, p, it)
    return step(eng, st, p, it)


def counted(eng, pl):
    for ctx in reversed(eng.loops):
        if pl is not None and ctx.mode == "probe" and (pl.args[0], pl.args[1]) in ctx.entry_m:
            ctx.calls += 1
            break


def gated_next(eng, st, p, items):
    """a concrete row of elements, each present under a condition"""
    items = [(ok, v) for ok, v in items if ok is not FALSE]
    found, val, rest = FALSE, None, []
    for ok, v in items:
        if found is not FALSE:
            rest.append((AND(found, ok), v))
        found = OR(found, ok)
    for ok, v in reversed(items):
        val = v if val is None else merge(ok, v, val)
    eng.store_ptr(st, p, IterV(("gated", tuple(rest))) if rest else IterV(("list", ())))
    if val is None:
        return none()
    return option(found, val)


def unknown_next(eng, p, v):
    for ctx in reversed(eng.loops):
        if ctx.mode == "probe":
            raise NeedAbstract(ctx)
        ctx.broken = "unmodelled iterator"
        break
    loops._w[0] += 1
    return option(var(t("unk", "next", v, loops._w[0], weak=True)), unk("nextval", v, loops._w[0]))


def drive(eng, ctx, st, pl, it):
    if ctx.ptr is not None and ctx.ptr is not pl:
        ctx.broken = "two iterators"
    ctx.ptr, ctx.it = pl, it
    ctx.calls += 1
    if ctx.calls > 1 and False:
        ctx.broken = "next called twice"
    e = elem_of(it.src, ctx.w)
    more = var(t("more", ctx.w))
    if it.src[0] == "range":
        eng.ranges[ctx.w] = it.src[1], it.src[2]
    r = run_stages(eng, st, it.stages, e)
    if r is None:
        ctx.broken = "stages"
        return option(more, unk("staged"))
    ok, stop, v = r
    ctx.filters = AND(ctx.filters, ok) if ctx.calls == 1 else ok
    return option(AND(more, NOT(stop)), v, leaf_ty(v))


def step(eng, st, p, it):
    k = it.src[0]
    if k == "chars":
        s = it.src[1]
        ne = apply(nonempty, s)
        ch = apply(lambda x: leaf(chlast(x) if it.rev else chfirst(x)), s)

        def rest(x):
            if it.rev:
                return leaf(sslice(x, c(0), add(slen(x), utf8len(chlast(x)), 1, -1)))
            return leaf(sslice(x, utf8len(chfirst(x)), slen(x)))
        eng.store_ptr(st, p, IterV(("chars", ite(ne, apply(rest, s), s)), it.rev))
        return option(ne, ch, CHAR)
    if k == "seq":
        s = it.src[1]
        ety = it.src[2]
        ne = apply(nonempty, s)
        v = apply(lambda x: at(x, add(slen(x), c(1), 1, -1) if it.rev else c(0), ety), s)
        eng.store_ptr(st, p, IterV(("seq", apply(lambda x: leaf(sslice(x, c(0), add(slen(x), c(1), 1, -1)) if it.rev else sslice(x, c(1), slen(x))), s), ety), it.rev))
        return option(ne, v, ety)
    if k == "range":
        lo, hi = it.src[1], it.src[2]
        ne = apply(lt, lo, hi)
        if it.rev:
            eng.store_ptr(st, p, IterV(("range", lo, apply(lambda x: leaf(add(x, c(1), 1, -1)), hi)), True))
            return option(ne, apply(lambda x: leaf(add(x, c(1), 1, -1)), hi), USIZE)
        eng.store_ptr(st, p, IterV(("range", apply(lambda x: leaf(add(x, c(1))), lo), hi)))
        return option(ne, lo, USIZE)
    if k == "opt":
        v = it.src[1]
        eng.store_ptr(st, p, IterV(("list", ())))
        return v
    if k == "split" and not it.rev:
        s, q = it.src[1], it.src[2]
        h = apply(has, s, q)
        eng.store_ptr(st, p, IterV(("gated", ((h, fresh_unk("rest of split")),))))
        return some(ite(h, apply(lambda x, y: leaf(sslice(x, c(0), find(x, y))), s, q), s), STR)
    xs = src_nodes(it.src)
    ety = it.src[-1] if isinstance(it.src[-1], Ty) else None
    S = lambda *a: seqterm(it.src, it.rev, a)
    if isinstance(p, N) and any(x.op == "ptr" for x in leaves(p)):
        n = 0
        src2 = (("after_" + k) if not k.startswith("after_") else k,) + it.src[1:-1] + (leaf(c(1)), ety)
        eng.store_ptr(st, p, IterV(src2, it.rev))
    return option(apply(lambda *a: nonempty(S(*a)), *xs), apply(lambda *a: leaf(t("at", S(*a), c(0), ty=ety)), *xs), ety)


def staged_next(eng, st, p, it):
    out = consume(eng, st, it, "next")
    eng.store_ptr(st, p, fresh_unk("advanced iterator"))
    return out


def consume(eng, st, it, how, f=None, init=None):
    """runs a consuming adapter as a synthetic loop. returns the value"""
    # scratch cells: iterator, accumulator
    from .eng import _fid
    _fid[0] += 1
    F = _fid[0]
    st.m[(F, 0)] = it
    st.m[(F, 1)] = init if init is not None else UNDEF
    ip = leaf(t("ptr", F, 0, ()))

    def run(s):
        o = m_next(eng, {"name": "<I as std::iter::Iterator>::next"}, [ip], s)
        g = isv(o, "Some", getattr(o, "ty", None))
        exits, backs = [], []
        gn = AND(s.g, NOT(g))
        if gn is not FALSE:
            exits.append(("none", St(gn, dict(s.m))))
        gs = AND(s.g, g)
        if gs is FALSE:
            return backs, exits
        b = St(gs, dict(s.m))
        v = payload(o, "Some", "0")
        # the filter condition of the driving loop only narrows what the body sees
        ctx = eng.loops[-1] if eng.loops else None
        fl = ctx.filters if ctx is not None and ctx.mode == "abs" and ctx.it is not None else TRUE
        if how == "next":
            b.m[(F, 1)] = v
            exits.append(("hit", b))
            return backs, exits
        if how in ("find", "any", "all", "position", "find_map"):
            r, b2 = eng.call_closure(f, [v], b)
            b = b2 if b2 is not None else b
            if how == "find_map":
                hit = isv(r, "Some", getattr(r, "ty", None) or leaf_ty(r))
                v = payload(r, "Some", "0")
            else:
                hit = enc(r)
                if how == "all":
                    hit = NOT(hit)
            h = St(AND(b.g, hit), dict(b.m))
            if how in ("find", "find_map"):
                h.m[(F, 1)] = v
            if h.g is not FALSE:
                exits.append(("hit", h))
            nb = St(AND(b.g, NOT(hit)), dict(b.m))
            if how == "position":
                nb.m[(F, 1)] = apply(lambda x: leaf(add(x, c(1))), enc(nb.m[(F, 1)]))
            if nb.g is not FALSE:
                backs.append(nb)
            return backs, exits
        if how == "count":
            b.m[(F, 1)] = apply(lambda x: leaf(add(x, c(1))), enc(b.m[(F, 1)]))
        elif how == "sum":
            b.m[(F, 1)] = apply(lambda x, y: leaf(add(x, y)), enc(b.m[(F, 1)]), enc(v))
        elif how == "last":
            b.m[(F, 1)] = some(v, leaf_ty(v))
        elif how == "for_each":
            _, b2 = eng.call_closure(f, [v], b)
            b = b2 if b2 is not None else b
        elif how == "fold":
            r, b2 = eng.call_closure(f, [b.m[(F, 1)], v], b)
            b = b2 if b2 is not None else b
            b.m[(F, 1)] = r
        elif how in ("string", "charstring"):
            def is_ch(y):
                return y.op == "c" and isinstance(y.args[0], int) or y.ty is CHAR or y.op in ("upper", "lower", "todec")
            chs = how == "charstring" or any(is_ch(y) for y in leaves(enc(v)))

            def app(x, y):
                return leaf(cat(x, chrt(y) if chs else y))
            b.m[(F, 1)] = apply(app, enc(b.m[(F, 1)]), enc(v))
        elif how == "list":
            x = b.m[(F, 1)]
            b.m[(F, 1)] = ListV(x.items + (v,)) if isinstance(x, ListV) else apply(lambda s_, y: leaf(lcat(s_, t("list", y))), enc(x), enc(v))
        elif how == "set":
            map_insert(eng, {"name": "insert"}, [leaf(t("ptr", F, 1, ()))] + ([v] if not (isinstance(v, Agg) and set(v.f) == {"0", "1"}) or f else [v.f["0"], v.f["1"]]), b)
        backs.append(b)
        return backs, exits
    ex = run_loop(eng, run, St(st.g, dict(st.m)))
    hits = [s for tg, s in ex if tg == "hit"]
    nones = [s for tg, s in ex if tg == "none"]
    hs, ns = eng.join(hits), eng.join(nones)
    tot = eng.join([s for s in (hs, ns) if s is not None])
    if tot is None:
        st.g = FALSE
        return UNDEF
    cond = restrict(hs.g, tot.g) if hs is not None else FALSE
    acc_h = hs.m.get((F, 1), UNDEF) if hs is not None else UNDEF
    acc_n = ns.m.get((F, 1), UNDEF) if ns is not None else UNDEF
    acc = tot.m.get((F, 1), UNDEF)
    for k in [k for k in tot.m if k[0] == F]:
        if k != (F, 0):
            del tot.m[k]
    st.m.clear()
    st.m.update({k: v for k, v in tot.m.items() if k[0] != F})
    if how in ("any",):
        return cond
    if how == "all":
        return NOT(cond)
    if how in ("find", "find_map", "next", "position"):
        v = acc_h
        return option(cond, v, leaf_ty(v) if v is not UNDEF else None) if cond is not FALSE else none()
    return acc_n if acc_n is not UNDEF else acc


def consumer(how, init=None, farg=True):
    def f(eng, ins, a, st):
        it = raw(eng, st, a[0])
        if not isinstance(it, IterV):
            it = to_iter(eng, st, it)
        if any(s[0] not in ("cidx", "win", "map", "filter", "filter_map", "flatten", "take_while", "map_while", "inspect") for s in it.stages):
            return eng.unknown_call("iter." + how, a, st)
        i = init() if callable(init) else init
        fa = a[1] if farg and len(a) > 1 else None
        if how == "fold":
            i, fa = a[1], a[2]
        r = consume(eng, st, it, how, fa, i)
        if isinstance(a[0], N) and a[0].atom is None and a[0].leaf.op == "ptr":
            eng.store_ptr(st, a[0], fresh_unk("iterator after " + how))
        return r
    return f


TAB[("iter", "find")] = consumer("find")
TAB[("iter", "any")] = consumer("any")
TAB[("iter", "all")] = consumer("all")
TAB[("iter", "find_map")] = consumer("find_map")
TAB[("iter", "position")] = consumer("position", lambda: cn(0))
TAB[("iter", "for_each")] = consumer("for_each")
TAB[("iter", "fold")] = consumer("fold")
TAB[("iter", "count")] = consumer("count", lambda: cn(0))
TAB[("iter", "sum")] = consumer("sum", lambda: cn(0))
TAB[("iter", "last")] = consumer("last", lambda: none())


def extreme(k):
    """the least or greatest element: the first or last one after sorting"""
    def f(eng, ins, a, st):
        it = raw(eng, st, to_iter(eng, st, a[0]))
        if not isinstance(it, IterV):
            return eng.unknown_call("iter.min", a, st)
        v = it.src[1] if not it.stages and it.src[0] == "seq" else consume(eng, st, it, "list", None, ListV([]))
        ety = elem_ty(eng, enc(v))
        n = enc(v)
        if any(x.weak for x in leaves(n)) or ety is not None and not (ety.k in ("int", "uint", "char", "str", "bool") or ety.name in ("String", "str")):
            return eng.unknown_call("iter.min", a, st)
        return seq_end(eng, apply(lambda x: leaf(x if x.op == "sort" else t("sort", x, ty=x.ty)), n), k)
    return f


TAB[("iter", "min")] = extreme(0)
TAB[("iter", "max")] = extreme(-1)


@model(("iter", "len"))
def m_iter_len(eng, ins, a, st):
    it = raw(eng, st, a[0])
    if isinstance(it, IterV) and all(s[0] in ("map", "enumerate", "inspect") for s in it.stages):
        if it.src[0] == "list":
            return cn(len(it.src[1]))
        if it.src[0] == "seq":
            return apply(lambda x: leaf(slen(x)), it.src[1])
    return eng.unknown_call("iter.len", a, st)


@model(("iter", "nth"))
def m_nth(eng, ins, a, st):
    it = raw(eng, st, a[0])
    n = enc(a[1])
    if isinstance(it, IterV) and n is cn(0):
        return m_next(eng, ins, a, st) if isinstance(a[0], N) else consume(eng, st, it, "next")
    if isinstance(it, IterV) and not it.stages and it.src[0] == "list" and n.atom is None and n.leaf.op == "c":
        xs = concrete(it)
        return some(xs[n.leaf.args[0]]) if n.leaf.args[0] < len(xs) else none()
    return eng.unknown_call("iter.nth", a, st)


@model(("iter", "collect"), ("FromIterator", "from_iter"))
def m_collect(eng, ins, a, st):
    n = ins["name"]
    m = re.search(r"collect::<(.*)>$", n)
    tgt = m.group(1) if m else parse_name(n)[0]
    it = to_iter(eng, st, a[0])
    it = raw(eng, st, it)
    if tgt.startswith(("std::string::String", "String")):
        return consume(eng, st, it, "string", None, cn(""))
    if "Vec" in tgt.split("<")[0] or "VecDeque" in tgt.split("<")[0]:
        if not it.stages and not it.rev and it.src[0] == "seq":
            return it.src[1]
        return consume(eng, st, it, "list", None, ListV([]))
    if "HashSet" in tgt.split("<")[0]:
        return consume(eng, st, it, "set", True, MapV({}))
    if "HashMap" in tgt.split("<")[0]:
        return consume(eng, st, it, "set", None, MapV({}))
    return eng.unknown_call("collect:" + tgt, a, st)


@model(("Extend", "extend"))
def m_extend(eng, ins, a, st):
    recv = parse_name(ins["name"])[0]
    o = raw(eng, st, a[1])
    p = a[0]
    cur = raw(eng, st, p)
    head = recv.split("<")[0]
    if any(x in head for x in ("HashMap", "HashSet", "BTreeMap", "BTreeSet")):
        if isinstance(o, MapV):
            o = map_items(o, "iter")
        if isinstance(cur, MapV) and not isinstance(o, IterV):
            o = raw(eng, st, to_iter(eng, st, o))
        if isinstance(cur, MapV) and isinstance(o, IterV) and not is_abstract(o):
            d = dict(cur.d)
            for x in concrete(o):
                r = run_stages(eng, st, o.stages, x)
                if r is None or r[0] is not TRUE:
                    return eng.unknown_call("extend", a, st)
                x = r[2]
                if head.endswith("Map"):
                    d[enc(x.f["0"]).leaf] = x.f["1"]
                else:
                    d[enc(x).leaf] = None
            eng.store_ptr(st, p, MapV(d))
            return Agg(None, {})
        return eng.unknown_call("extend", a, st)
    if "String" in head:
        it = raw(eng, st, to_iter(eng, st, o))
        r = consume(eng, st, it, "charstring" if re.search(r"Extend<&?('\w+ )?char>", ins["name"]) else "string", None, enc(cur))
        eng.store_ptr(st, p, r)
        return Agg(None, {})
    it = raw(eng, st, to_iter(eng, st, o))
    if isinstance(it, IterV) and not it.stages and it.src[0] == "seq":
        return m_extend_seq(eng, st, p, it.src[1])
    if isinstance(it, IterV):
        r = consume(eng, st, it, "list", None, cur)
        eng.store_ptr(st, p, r)
        return Agg(None, {})
    return eng.unknown_call("extend", a, st)


# calls through function values
@model(("FnOnce", "call_once"), ("FnMut", "call_mut"), ("Fn", "call"))
def m_callfn(eng, ins, a, st):
    if not a:
        return eng.unknown_call(ins["name"], a, st), st
    f = a[0]
    args = list(a[1].f.values()) if len(a) > 1 and isinstance(a[1], Agg) and a[1].inst is None else list(a[1:])
    n = ins["name"]
    k = n.find("{")
    fv = raw(eng, st, f)
    if isinstance(fv, Agg) and fv.inst is not None:
        return eng.call_closure(f, args, st)
    m = re.match(r"<fn\(.*?\{(.*)\} as ", n)
    if m:
        nm = m.group(1)
        md = lookup(eng, nm, None)
        if md is not None:
            return eng.model_call(md, {"name": nm}, args, st, None)
    return eng.unknown_call(n, a, st), st


# panics
def m_panic(eng, ins, a, st):
    eng.panic(st, TRUE, "call:" + short(ins["name"]), ())
    return UNDEF, None


for n_ in ("core::panicking::panic_fmt", "core::panicking::panic", "core::option::unwrap_failed", "std::option::unwrap_failed", "core::option::expect_failed", "std::option::expect_failed", "core::result::unwrap_failed", "std::result::unwrap_failed",
           "std::result::unwrap_failed::unwrap_failed_inner", "core::panicking::panic_explicit", "core::panicking::unreachable_display", "core::panicking::panic_display", "core::panicking::panic_const::panic_const_add_overflow", "core::panicking::assert_failed", "std::rt::panic_fmt", "std::process::abort", "std::process::exit",
           "core::str::slice_error_fail", "core::panicking::panic_nounwind"):
    TAB[n_] = m_panic

# memory helpers
TAB["std::mem::swap"] = TAB["core::mem::swap"] = lambda eng, ins, a, st: swap_(eng, st, a)
TAB["std::mem::take"] = lambda eng, ins, a, st: take_(eng, ins, st, a)
TAB["std::mem::replace"] = lambda eng, ins, a, st: repl_(eng, st, a)


def swap_(eng, st, a):
    x, y = raw(eng, st, a[0]), raw(eng, st, a[1])
    eng.store_ptr(st, a[0], y)
    eng.store_ptr(st, a[1], x)
    return Agg(None, {})


def repl_(eng, st, a):
    x = raw(eng, st, a[0])
    eng.store_ptr(st, a[0], a[1])
    return x


def take_(eng, ins, st, a):
    x = raw(eng, st, a[0])
    n = ins["name"]
    if "String" in n:
        eng.store_ptr(st, a[0], cn(""))
    elif "Vec" in n:
        eng.store_ptr(st, a[0], ListV([]))
    elif "Option" in n:
        eng.store_ptr(st, a[0], none())
    else:
        eng.store_ptr(st, a[0], fresh_unk("take"))
    return x


@model(("*", "match_national_number"), ("MatcherApi", "match_national_number"), ("dyn interfaces::MatcherApi", "match_national_number"))
def m_mnn(eng, ins, a, st):
    """the pattern matcher behind the trait object"""
    num, desc, pre = nd(eng, st, a[1]), nd(eng, st, a[2]), enc(a[3])
    return apply(lambda x, d, p: matchdesc(x, d, p), num, desc, pre)


def matchdesc(x, d, p):
    pat = mkpay_opt_str(d, "national_number_pattern")
    return apply(lambda q: AND(nonempty(q), var(t("start" if p is TT else "full", q, x))), pat)


OPTSTR = opt_ty(STR)


def mkpay_opt_str(d, fld):
    """value of an optional string field, "" when absent"""
    f = mkfld(d, fld, OPTSTR)
    v = apply(lambda x: ite(cond_of(discr_of_term(x, OPTSTR), lambda z: z is c("Some")), mkpay(x, "Some", "0", STR), cn("")), f)
    return v


# ------------------------------------------------------------------ the pattern cache seen from inside
# What a look-up under key k gives is re(k): every store is checked to keep to that (sa/locks.py).
def dm(name):
    def d(f):
        k = ("Entry" if name.startswith("or_") else "DashMap", name)
        other = TAB.get(k)

        def g(eng, ins, a, st):
            if not eng.opts.get("cache_open"):
                return other(eng, ins, a, st) if other else eng.unknown_call(ins["name"], a, st)
            return f(eng, ins, a, st)
        TAB[k] = g
        return f
    return d


def hit_(k):
    return apply(lambda x: var(t("cached", x)), k)


def re_at(k):
    return apply(lambda x: leaf(t("re", x, ty=REGEX)), k)


@dm("get")
def dm_get(eng, ins, a, st):
    k = nd(eng, st, a[1])
    return option(hit_(k), re_at(k), REGEX)


@dm("contains_key")
def dm_has(eng, ins, a, st):
    return hit_(nd(eng, st, a[1]))


@dm("insert")
def dm_insert(eng, ins, a, st):
    k, v = nd(eng, st, a[1]), nd(eng, st, a[2])
    eng.event(st, "store", k, v)
    return option(hit_(k), re_at(k), REGEX)


@dm("entry")
def dm_entry(eng, ins, a, st):
    return apply(lambda x: leaf(t("dmentry", x)), nd(eng, st, a[1]))


@dm("remove")
def dm_remove(eng, ins, a, st):
    return fresh_unk("removed")


def entry_key(eng, st, v):
    n = nd(eng, st, v)
    return apply(lambda x: leaf(x.args[0]) if x.op == "dmentry" else unk("entrykey", x), n)


@dm("or_try_insert_with")
def dm_ortry(eng, ins, a, st):
    k = entry_key(eng, st, a[0])
    h = hit_(k)
    g0 = st.g
    st.g = AND(g0, NOT(h))
    r, st2 = eng.call_closure(a[1], [], st)
    if not isinstance(r, Enum):
        r = expand(r, leaf_ty(r)) if leaf_ty(r) is not None else fresh_unk("closure result")
    if not isinstance(r, Enum):
        st.g = g0
        return r
    okg = cond_of(r.d, lambda x: x is c("Ok"))
    v = enc(r.p.get("Ok", {}).get("0", UNDEFN))
    st.g = AND(g0, NOT(h), okg)
    eng.event(st, "store", k, v)
    st.g = g0
    return Enum(r.ty, ite(h, cn("Ok"), r.d), {"Ok": {"0": merge(h, re_at(k), v)}, "Err": r.p.get("Err", {"0": UNDEFN})})


@dm("or_insert_with")
def dm_orins(eng, ins, a, st):
    k = entry_key(eng, st, a[0])
    h = hit_(k)
    g0 = st.g
    st.g = AND(g0, NOT(h))
    r, _ = eng.call_closure(a[1], [], st)
    v = enc(r)
    eng.event(st, "store", k, v)
    st.g = g0
    return merge(h, re_at(k), v)


@dm("or_insert")
def dm_orins2(eng, ins, a, st):
    k = entry_key(eng, st, a[0])
    h = hit_(k)
    v = nd(eng, st, a[1])
    g0 = st.g
    st.g = AND(g0, NOT(h))
    eng.event(st, "store", k, v)
    st.g = g0
    return merge(h, re_at(k), v)
