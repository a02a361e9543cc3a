"""Are two gated values equal for every input?  Difference diagrams pruned by a small theory
(constants, variants, bounds, congruence).  'differs' is only claimed on a combination of
conditions the theory cannot refute and that mentions nothing unmodelled."""
from fractions import Fraction
from .vals import *
from .strs import *
from . import rx, strs, loops

PATHS = 60000 if __import__("os").environ.get("SA_DEEP") == "1" else 6000


class Budget(Exception):
    pass


# ------------------------------------------------------------------ theory of one conjunction
class Lits:
    """cheap incremental consistency of a set of literals"""

    def __init__(self):
        self.lo, self.hi, self.eqc, self.ne, self.isv, self.notis = {}, {}, {}, {}, {}, {}
        self.trail = []

    def _set(self, d, k, v):
        self.trail.append((d, k, d.get(k)))
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v

    def mark(self):
        return len(self.trail)

    def undo(self, m):
        while len(self.trail) > m:
            d, k, v = self.trail.pop()
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v

    def add(self, a, b):
        """False if inconsistent"""
        if a.op == "ge":
            s, k = a.args
            if b:
                if k > self.lo.get(s, -1 << 200):
                    self._set(self.lo, s, k)
            else:
                if k - 1 < self.hi.get(s, 1 << 200):
                    self._set(self.hi, s, k - 1)
            return self._int(s)
        if a.op == "eq":
            x, y = a.args
            if y.op != "c":
                return True
            v = y.args[0]
            if b:
                o = self.eqc.get(x)
                if o is not None and o is not y:
                    return False
                self._set(self.eqc, x, y)
                if y in self.ne.get(x, ()):
                    return False
                if isinstance(v, int):
                    return self._int(x)
                return True
            if self.eqc.get(x) is y:
                return False
            self._set(self.ne, x, self.ne.get(x, frozenset()) | {y})
            if isinstance(v, int):
                return self._int(x)
            return True
        if a.op == "is":
            x, vn = a.args
            if b:
                o = self.isv.get(x)
                if o is not None and o != vn or vn in self.notis.get(x, ()):
                    return False
                self._set(self.isv, x, vn)
            else:
                if self.isv.get(x) == vn:
                    return False
                s = self.notis.get(x, frozenset()) | {vn}
                self._set(self.notis, x, s)
                ty = x.ty if is_enum(x.ty) else a.ty
                if is_enum(ty) and len(s) >= len(layout(ty)):
                    return False
            return True
        return True

    def _int(self, s):
        lo, hi = self.lo.get(s), self.hi.get(s)
        e = self.eqc.get(s)
        if e is not None and isinstance(e.args[0], int):
            v = e.args[0]
            return (lo is None or v >= lo) and (hi is None or v <= hi)
        b = low(s)
        if b is not None and (lo is None or lo < b):
            lo = b
        if s.op == "elem" and s.ty is loops.CHAR or s.op == "ch":
            hi = min(hi, 0x10ffff) if hi is not None else 0x10ffff
        if lo is not None and hi is not None:
            if lo > hi:
                return False
            if hi - lo < 64:
                ne = self.ne.get(s, ())
                if ne and all(c(v) in ne for v in range(lo, hi + 1)):
                    return False
        return True


def fm_infeasible(rows):
    """rows: list of ({var: coef}, k) meaning sum + k >= 0, over the rationals"""
    rows = [(dict(d), Fraction(k)) for d, k in rows]
    for _ in range(24):
        vs = {}
        for d, k in rows:
            if not d and k < 0:
                return True
            for v, co in d.items():
                p = vs.setdefault(v, [0, 0])
                p[0 if co > 0 else 1] += 1
        rows = [r for r in rows if r[0]]
        if not vs:
            return False
        v = min(vs, key=lambda z: vs[z][0] * vs[z][1])
        pos = [r for r in rows if r[0].get(v, 0) > 0]
        neg = [r for r in rows if r[0].get(v, 0) < 0]
        rest = [r for r in rows if v not in r[0]]
        if len(pos) * len(neg) > 200:
            return False
        for d1, k1 in pos:
            for d2, k2 in neg:
                a, b = Fraction(d1[v]), -Fraction(d2[v])
                d = {}
                for z, co in d1.items():
                    d[z] = d.get(z, 0) + co * b
                for z, co in d2.items():
                    d[z] = d.get(z, 0) + co * a
                d = {z: co for z, co in d.items() if co}
                rest.append((d, k1 * b + k2 * a))
        rows = rest
    return False


ARITH = ("len", "sum", "find", "lin", "ms", "me", "ch", "pos")


def nonint(y):
    return y.op == "c" and (not isinstance(y.args[0], int) or isinstance(y.args[0], bool))


def in_order(L):
    """lists in ascending order: sorted ones, and the lengths of the metadata (C27 checks that)"""
    if L.op == "sort":
        return True
    return L.op in ("pay", "fld") and any(x in ("possible_length", "possible_length_local_only") for x in L.args)


def bytes_of(z):
    """the text of which z counts the bytes of a prefix or suffix"""
    S = z.args[0]
    if S.op != "twhile" or z.args[1].atom is not None or z.args[1].leaf.op != "utf8len" or z.args[1].leaf.args[0] is not t("elem", z.args[2]):
        return None
    S = loops.unordered(S.args[0])
    return S.args[0] if S.op == "chars" else None


def within(x, L):
    """everything x holds is in L"""
    L = L.args[0] if L.op == "sort" else L
    return L is x or L.op == "lcat" and x in L.args


def sorts_with(lits, L):
    """the sorted lists spoken of that hold everything L holds"""
    out = []
    for a, _ in lits:
        if a.op not in ("ge", "eq"):
            continue
        for x in a.args[:2]:
            for z in (lin_parts(x)[1] if isinstance(x, T) and x.op in ARITH else (x,)):
                if isinstance(z, T) and z.op == "at" and z.args[0].op == "sort" and z.args[0] not in out:
                    if within(L, z.args[0]):
                        out.append(z.args[0])
    return out


def digit_rows(lits, rows):
    """how long a number is in print follows how large it is"""
    zs = [z for d, _ in rows for z in d if z.op == "len" and z.args[0].op == "itoa" and kind(z.args[0].args[0].ty) == "uint"]
    zs = list(dict.fromkeys(zs))
    big = {a.args[0]: t("len", t("itoa", a.args[0])) for a, _ in lits if a.op == "ge" and kind(a.args[0].ty) == "uint"}
    zs += [z for z in big.values() if zs and z not in zs]
    out = []
    for z in zs:
        x = z.args[0].args[0]
        for a, b in lits:
            if a.op == "ge" and a.args[0] is x:
                k = a.args[1]
                out.append(({z: 1}, -len(str(k))) if b else ({z: -1}, len(str(max(k - 1, 0)))))
    return out


def arith_infeasible(lits):
    rows = []
    seen = set()
    for a, b in lits:
        if a.op == "ge":
            k, d = lin_parts(a.args[0])
            if b:
                rows.append((d, k - a.args[1]))
            else:
                rows.append(({z: -co for z, co in d.items()}, -k + a.args[1] - 1))
        elif a.op == "eq" and b:
            x, y = a.args
            if y.op == "c" and not isinstance(y.args[0], int) or isinstance(y.args[0] if y.op == "c" else 0, bool):
                continue
            if x.ty is None and x.op not in ARITH and y.op != "c":
                continue
            dd = add(x, y, 1, -1)
            k, d = lin_parts(dd)
            rows.append((d, k))
            rows.append(({z: -co for z, co in d.items()}, -k))
        elif b and a.op in ("ends", "starts", "has") and a.args[1].op not in ("pset", "ppred", "chr"):
            # what is found inside is no longer; strictly shorter if the converse fails
            x, y = a.args
            strict = any(not b2 and a2.op == a.op and a2.args[0] is y and a2.args[1] is x for a2, b2 in lits)
            k, d = lin_parts(add(slen(x), slen(y), 1, -1))
            rows.append((d, k - (1 if strict else 0)))
        elif b and a.op == "any" and a.args[0].op == "items":
            # what an ascending list contains lies between its first and its last entry
            L0, e, P = a.args[0].args[0], t("elem", a.args[2]), a.args[1]
            if P.atom is not None and P.hi is TRUE and P.lo is FALSE and P.atom.op == "eq" and e in P.atom.args:
                v = P.atom.args[1] if P.atom.args[0] is e else P.atom.args[0]
                if e not in subterms(v):
                    for L in ([L0] if in_order(L0) else []) + sorts_with(lits, L0):
                        for w, sg in ((t("at", L, c(0)), 1), (t("at", L, add(slen(L), c(1), 1, -1)), -1)):
                            k, d = lin_parts(add(v, w, sg, -sg))
                            rows.append((d, k))
            continue
        else:
            continue
    rows += digit_rows(lits, rows)
    scan = [d for d, _ in rows]
    for a, b in lits:
        if a.op == "eq" and not b and (a.args[0].op in ARITH or a.args[1].op in ARITH) and not nonint(a.args[1]):
            scan.append(lin_parts(add(*a.args, 1, -1))[1])
    for d in scan:
        for z in d:
            if z not in seen:
                seen.add(z)
                b = low(z)
                if b is not None:
                    rows.append(({z: 1}, -b))
                if z.op in ("find", "rfind") :
                    # index + pattern length <= length of the string
                    pl, hl = slen_pat(z.args[1]), slen(z.args[0])
                    dd = add(hl, add(z, pl), 1, -1)
                    k, d2 = lin_parts(dd)
                    rows.append((d2, k))
                if z.op == "sum" and z.args[0].op == "twhile" and z.args[1] is cn(1) and loops.unordered(z.args[0].args[0]).op == "chars":
                    # the prefix stops before a character that is outside it
                    S, P, w = loops.unordered(z.args[0].args[0]), z.args[0].args[1], z.args[0].args[2]
                    out = any(a.op == "any" and b and loops.unordered(a.args[0]) is S and
                              AND(a.args[1], loops.subst(P, {t("elem", w): t("elem", a.args[2])})) is FALSE for a, b in lits)
                    k, d2 = lin_parts(add(slen(S.args[0]), z, 1, -1))
                    rows.append((d2, k - (1 if out else 0)))
                if z.op == "sum" and bytes_of(z) is not None:
                    # some of the characters of a text take no more bytes than all of them
                    S, P, w = loops.unordered(z.args[0].args[0]), z.args[0].args[1], z.args[0].args[2]
                    out = any(a.op == "any" and b and loops.unordered(a.args[0]) is S and
                              AND(a.args[1], loops.subst(P, {t("elem", w): t("elem", a.args[2])})) is FALSE for a, b in lits)
                    k, d2 = lin_parts(add(slen(bytes_of(z)), z, 1, -1))
                    rows.append((d2, k - (1 if out else 0)))
                if z.op == "sum" and z.args[0].op == "chars" and z.args[1] is cn(1):
                    # as many characters as bytes, if all of them are ASCII
                    x = z.args[0].args[0]
                    k, d2 = lin_parts(add(slen(x), z, 1, -1))
                    rows.append((d2, k))
                    if any(a.op == "any" and not b and loops.unordered(a.args[0]) is z.args[0] and loops.above(a.args[1], t("elem", a.args[2]), 128) is TRUE for a, b in lits):
                        rows.append(({y: -co for y, co in d2.items()}, -k))
                if z.op == "ms":
                    k, d2 = lin_parts(add(t("me", *z.args), z, 1, -1))
                    rows.append((d2, k))
                    scan.append(d2)
                if z.op == "pos":
                    # a character lies within its text
                    k, d2 = lin_parts(add(slen(z.args[1]), add(z, t("utf8len", z.args[0])), 1, -1))
                    rows.append((d2, k))
                    scan.append(d2)
                if z.op == "idxof":
                    # the index of an element that was found
                    k, d2 = lin_parts(add(slen(z.args[0]), z, 1, -1))
                    rows.append((d2, k - 1))
                if z.op == "me" and z.args[0].op == "m":
                    k, d2 = lin_parts(add(slen(z.args[0].args[1]), z, 1, -1))
                    rows.append((d2, k))
    for _ in range(1):
        for d, _k in list(rows):
            for z in d:
                if z not in seen:
                    seen.add(z)
                    b = low(z)
                    if b is not None:
                        rows.append(({z: 1}, -b))
    if len(rows) > 1 and fm_infeasible(rows):
        return True
    n = 0
    for a, b in lits:
        # two integers called different that are squeezed together
        if a.op == "eq" and not b and n < 4:
            x, y = a.args
            if nonint(y) or x.op not in ARITH and y.op not in ARITH:
                continue
            n += 1
            k, d = lin_parts(add(x, y, 1, -1))
            if d and fm_infeasible(rows + [(d, k - 1)]) and fm_infeasible(rows + [({z: -co for z, co in d.items()}, -k - 1)]):
                return True
    return False


def slen_pat(p):
    if p.op == "c":
        return c(len(str(p.args[0]).encode("utf8")))
    if p.op in ("pset", "ppred", "chr"):
        return c(1)
    return slen(p)


def derive(lits):
    """equalities implied by the literals: T -> T"""
    mp = {}
    for a, b in lits:
        if not b:
            if a.op == "any" and loops.unordered(a.args[0]).op == "chars":
                # no character of x is outside P: the longest prefix within P is x
                S = loops.unordered(a.args[0])
                for z in {z for l, _ in lits for z in subterms(l) if z.op == "twhile"}:
                    if loops.unordered(z.args[0]) is S and AND(NOT(loops.subst(z.args[1], {t("elem", z.args[2]): t("elem", a.args[2])})), NOT(a.args[1])) is FALSE:
                        mp.setdefault(z, z.args[0])
            if a.op == "ge" and a.args[1] == 1 and low(a.args[0]) == 0:
                x = a.args[0]
                mp[x] = c(0)
                if x.op == "len":
                    y = x.args[0]
                    if y.ty is not None and getattr(y.ty, "k", "") == "str" or y.op in ("cat", "slice", "norm", "cmap"):
                        mp.setdefault(y, c(""))
            continue
        if a.op == "eq":
            x, y = a.args
            if y.op == "c":
                if x.op == "lin":
                    # solve for one unit atom
                    k, d = lin_parts(x)
                    for z, co in d.items():
                        if abs(co) == 1 and z not in mp:
                            rest = {w: -co * q for w, q in d.items() if w is not z}
                            sol = add(mk_lin(0, rest), c(co * (y.args[0] - k)))
                            if z not in subterms(sol):
                                mp[z] = sol
                                break
                else:
                    mp[x] = y
            else:
                u, w = (x, y) if x.id > y.id else (y, x)
                if u not in mp and u not in subterms(w):
                    mp[u] = w
        elif a.op == "is":
            x, vn = a.args
            ty = x.ty if is_enum(x.ty) else a.ty
            if is_enum(ty) and not layout(ty)[vn]:
                mp[x] = t("mk", ty.s, vn)
            elif is_enum(ty):
                fs = layout(ty)[vn]
                if all(not (ft is not None and ft.k == "bool") for ft in fs.values()):
                    names = [(f, opaque(t("pay", x, vn, f, ty=ft), ft)) for f, ft in fs.items()]
                    if all(n.atom is None for _, n in names):
                        mp["is", x] = (ty, vn, names)
    return {k: v for k, v in mp.items() if not isinstance(k, tuple)}


def boundary_conflict(lits):
    """a text can be cut behind what it starts with and before what it ends with"""
    for a, b in lits:
        if a.op != "boundary" or b:
            continue
        x, i = a.args
        # where a text cannot be cut there is no part that was cut there
        if any(a2 is not a and any(z.op == "slice" and z.args[0] is x and i in z.args[1:] for z in subterms(a2)) for a2, _ in lits):
            return True
        for a2, b2 in lits:
            if b2 and a2.op == "eq" and a2.args[0] is t("ch", x, "first") and a2.args[1].op == "c" and c(len(chr(a2.args[1].args[0]).encode("utf8"))) is i:
                return True
            if not b2 or a2.op not in ("starts", "ends") or a2.args[0] is not x:
                continue
            p = a2.args[1]
            if p.op in ("pset", "ppred"):
                continue
            at = t("utf8len", p.args[0]) if p.op == "chr" else slen(p)
            at = at if a2.op == "starts" else add(slen(x), at, 1, -1)
            if at is i:
                return True
    return False


def infeasible(lits, depth=0):
    """refutes a full conjunction; may return False for an inconsistent one"""
    if arith_infeasible(lits) or enum_conflict(lits) or element_conflict(lits) or boundary_conflict(lits) or two_codes(lits) or char_conflict(lits):
        return True
    if depth == 0:
        for x, lo, hi in small_ranges(lits):
            for v in range(lo, hi + 1):
                new = substituted(lits, {x: c(v)})
                if new is not None and not infeasible(new, 1):
                    break
            else:
                return True
    L = Lits()
    cur = list(lits)
    for _ in range(4):
        mp = derive(cur)
        if not mp:
            break
        new = []
        changed = False
        for a, b in cur:
            keep = {k: v for k, v in mp.items() if not (a.op == "eq" and b and (a.args[0] is k or a.args[1] is k))
                    and not (a.op == "is" and a.args[0] is k and b) and not (a.op == "ge" and not b and a.args[0] is k)}
            if not keep or not any(z in keep for z in subterms(a)):
                new.append((a, b))
                continue
            try:
                n = loops.subst(var(a), keep)
            except TooBig:
                new.append((a, b))
                continue
            n = n if b else NOT(n)
            if n is FALSE:
                return True
            if n is TRUE:
                continue
            if n.hi is TRUE and n.lo is FALSE:
                new.append((n.atom, True))
            elif n.hi is FALSE and n.lo is TRUE:
                new.append((n.atom, False))
            else:
                # a small formula: keep those atoms that it forces
                new += forced(n)
            changed = True
        pos = {}
        for a, b in new:
            if pos.setdefault(a, b) != b:
                return True
        L = Lits()
        for a, b in pos.items():
            if not L.add(a, b):
                return True
        new = list(pos.items())
        for a, b in new:
            if congruent_conflict(a, b):
                return True
        if strings_conflict(new):
            return True
        if arith_infeasible(new):
            return True
        if not changed:
            break
        cur = new
    for a, b in lits:
        if congruent_conflict(a, b):
            return True
    return strings_conflict(lits)


def substituted(lits, mp):
    """the literals with mp applied, or None if one of them becomes false"""
    out = []
    for a, b in lits:
        if not any(z in mp for z in subterms(a)):
            out.append((a, b))
            continue
        try:
            n = loops.subst(var(a), mp)
        except TooBig:
            out.append((a, b))
            continue
        n = n if b else NOT(n)
        if n is FALSE:
            return None
        if n is not TRUE:
            out += forced(n)
    pos = {}
    for a, b in out:
        if pos.setdefault(a, b) != b:
            return None
    return list(pos.items())


def small_ranges(lits):
    """numbers that are printed somewhere and can take only a few values"""
    xs = {z.args[0] for a, _ in lits for z in subterms(a) if z.op == "itoa"}
    out = []
    for x in xs:
        lo, hi = low(x), None
        for a, b in lits:
            if a.op == "ge" and a.args[0] is x:
                if b:
                    lo = a.args[1] if lo is None else max(lo, a.args[1])
                else:
                    hi = a.args[1] - 1 if hi is None else min(hi, a.args[1] - 1)
        if lo is not None and hi is not None and hi - lo <= 16:
            out.append((x, lo, hi))
    return out


def nothing_in_sorted(lits):
    """what no part of a list has, the sorted list has not either"""
    no = {}
    for a, b in lits:
        if a.op == "any" and not b and a.args[0].op == "items":
            no.setdefault((a.args[1], a.args[2]), set()).add(a.args[0].args[0])
    if not no:
        return []
    out, seen = [], set()
    for a, b in lits:
        if a.op not in ("any", "eq", "ge"):
            continue
        for Q in subterms(a):
            if Q.op == "sort" and Q not in seen:
                seen.add(Q)
                parts = Q.args[0].args if Q.args[0].op == "lcat" else (Q.args[0],)
                out += [(t("any", t("items", Q), E, n), False) for (E, n), has in no.items() if all(x in has for x in parts)]
    return out


def element_conflict(lits):
    """the first or last character of a text is one of its characters"""
    tms = None
    anys = [a for a, b in lits if a.op == "any" and b]
    for a in anys:
        # nothing is in what is empty
        S = loops.unordered(a.args[0])
        if S.op in ("items", "chars") and any(l.op == "ge" and not v and l.args[1] <= 1 and l.args[0].op == "len" and l.args[0].args[0] is S.args[0] for l, v in lits):
            return True
    if anys:
        pos = None
        for z in {z for l, _ in lits for z in subterms(l) if z.op in ("first", "last") and len(z.args) == 3}:
            # the first that satisfies something satisfies it
            if any(a.args == z.args for a in anys):
                pos = pos or dict(lits)
                E = loops.subst(z.args[1], {t("elem", z.args[2]): z})
                while E.atom is not None and E.atom in pos:
                    E = E.hi if pos[E.atom] else E.lo
                if E is FALSE:
                    return True
    for a, b in lits + nothing_in_sorted(lits):
        if a.op != "any" or b:
            continue
        S = loops.unordered(a.args[0])
        if S.op == "items":
            L, pos = S.args[0], dict(lits)
            L1 = L.args[0] if L.op == "sort" else L
            if any(l.op == "ge" and v and l.args[1] >= 1 and any(l.args[0] is slen(x) for x in (L,) + (L1.args if L1.op == "lcat" else ())) for l, v in lits):
                for z in (t("at", L, c(0)), t("at", L, add(slen(L), c(1), 1, -1))):
                    E = loops.subst(a.args[1], {t("elem", a.args[2]): z})
                    while E.atom is not None and E.atom in pos:
                        E = E.hi if pos[E.atom] else E.lo
                    if E is TRUE:
                        return True
            for a2, b2 in lits:
                # a part of the list holds what the whole does not
                if a2.op == "any" and b2 and loops.unordered(a2.args[0]).op == "items" and loops.unordered(a2.args[0]).args[0].op == "slice" and \
                        loops.unordered(a2.args[0]).args[0].args[0] is L and \
                        AND(loops.subst(a2.args[1], {t("elem", a2.args[2]): t("elem", a.args[2])}), NOT(a.args[1])) is FALSE:
                    return True
        if S.op == "items" and S.args[0].op == "slice" and S.args[0].args[1:] == (c(1), slen(S.args[0].args[0])):
            # found in a list but not behind its first entry: it is the first entry
            L, pos = S.args[0].args[0], dict(lits)
            for a2, b2 in lits:
                if a2.op == "any" and b2 and (loops.unordered(a2.args[0]) is t("items", L) or loops.unordered(a2.args[0]).op == "items" and within(loops.unordered(a2.args[0]).args[0], L)) and \
                        AND(loops.subst(a2.args[1], {t("elem", a2.args[2]): t("elem", a.args[2])}), NOT(a.args[1])) is FALSE:
                    E = loops.subst(a.args[1], {t("elem", a.args[2]): t("at", L, c(0))})
                    while E.atom is not None and E.atom in pos:
                        E = E.hi if pos[E.atom] else E.lo
                    if E is FALSE:
                        return True
        if S.op != "chars":
            continue
        if tms is None:
            tms = {z for l, _ in lits for z in subterms(l) if z.op == "ch"}
            pos = dict(lits)
        for z in tms:
            if z.args[0] is S.args[0] and z.args[1] in ("first", "last"):
                ne = strs.nonempty(S.args[0])
                if ne is not TRUE and not (ne.atom is not None and pos.get(ne.atom) is (ne.hi is TRUE)):
                    if not any(l.op == "ge" and v and l.args[0].op == "len" and l.args[0].args[0] is S.args[0] and l.args[1] >= 1 for l, v in lits):
                        continue
                E = loops.subst(a.args[1], {t("elem", a.args[2]): z})
                while E.atom is not None and E.atom in pos:
                    E = E.hi if pos[E.atom] else E.lo
                if E is TRUE:
                    return True
    return False


_PF = []


def codes_prefix_free():
    """no calling code of the embedded metadata begins another one"""
    if not _PF:
        from . import meta
        try:
            cs = {str(m["country_code"]) for m in meta.metadata()}
            _PF.append(len(cs) > 200 and not any(a != b and b.startswith(a) for a in cs for b in cs))
        except Exception:
            _PF.append(False)
    return _PF[0]


def two_codes(lits):
    """the beginning of a text cannot spell two calling codes in use"""
    seen = {}
    for a, b in lits:
        if b or a.op != "eq" or a.args[1] is not c("ZZ"):
            continue
        x = a.args[0]
        if x.op != "b:get_region_code_for_country_code" or not isinstance(x.args[-1], T) or x.args[-1].op != "atoi":
            continue
        y = x.args[-1].args[0]
        if y.op == "slice" and y.args[1] is c(0) and y.args[2].op == "c":
            if seen.setdefault(y.args[0], y.args[2]) is not y.args[2]:
                return codes_prefix_free()
    return False


def forced(n):
    out = []
    while n.atom is not None:
        if n.hi is FALSE:
            out.append((n.atom, False))
            n = n.lo
        elif n.lo is FALSE:
            out.append((n.atom, True))
            n = n.hi
        else:
            break
    return out


_cls = {}


def char_class(p):
    """the characters that a pattern of one character matches, or None"""
    if p not in _cls:
        try:
            x, *flags = rx.parse(p) if isinstance(rx.parse(p), tuple) else (None,)
            while isinstance(x, tuple) and x[0] == "cat" and len(x) == 2 and isinstance(x[1], tuple) and len(x[1]) == 1:
                x = x[1][0]
            _cls[p] = x[1] if isinstance(x, tuple) and x[0] == "set" else None
        except Exception:
            _cls[p] = None
    return _cls[p]


def char_conflict(lits):
    """no character is in all the classes and ranges asked for"""
    xs = {a.args[1].args[0] for a, b in lits if a.op == "full" and a.args[1].op == "chr" and a.args[0].op == "c"}
    for x in xs:
        s = ((0, rx.MAXCP),)
        for a, b in lits:
            r = None
            if a.op == "full" and a.args[1].op == "chr" and a.args[1].args[0] is x and a.args[0].op == "c":
                r = char_class(a.args[0].args[0])
            elif a.op == "ge" and a.args[0] is x:
                r = ((max(a.args[1], 0), rx.MAXCP),) if a.args[1] < rx.MAXCP else ()
            elif a.op == "eq" and x in a.args:
                y = a.args[1] if a.args[0] is x else a.args[0]
                if y.op == "c" and isinstance(y.args[0], int) and y.args[0] >= 0:
                    r = ((y.args[0], y.args[0] + 1),)
            if r is not None:
                s = rx.and_set(s, r if b else rx.neg_set(r))
                if not s:
                    return True
    return False


def enum_conflict(lits):
    """two enum values called different although they have the same variant and payloads"""
    isv = {a.args[0]: a.args[1] for a, b in lits if a.op == "is" and b}
    eqs = {frozenset(a.args) for a, b in lits if a.op == "eq" and b}
    for a, b in lits:
        if a.op != "eq" or b:
            continue
        x, y = a.args
        vn = isv.get(x)
        if vn is None or isv.get(y) != vn:
            continue
        ty = x.ty if is_enum(x.ty) else y.ty
        if not is_enum(ty):
            continue
        ok = True
        for f, ft in layout(ty)[vn].items():
            p, q = opaque(t("pay", x, vn, f, ty=ft), ft), opaque(t("pay", y, vn, f, ty=ft), ft)
            if p is q:
                continue
            if p.atom is None and frozenset((p.leaf, q.leaf)) in eqs:
                continue
            ok = False
        if ok:
            return True
    return False


def congruent_conflict(a, b):
    return a.op == "eq" and not b and a.args[1].op != "c" and same_term(*a.args)


def strings_conflict(lits):
    """facts about one string that exclude each other"""
    d = {}
    for a, b in lits:
        if a.op in ("starts", "ends", "has", "any", "eq", "ge"):
            x = a.args[0]
            if a.op == "ge" and x.op == "len":
                x = x.args[0]
            if a.op == "any" and x.op in ("chars", "rev"):
                x = loops.unordered(x)
                x = x.args[0] if x.op == "chars" else x
            d.setdefault(x, []).append((a, b))
    for x, ls in d.items():
        empty = any(a.op == "ge" and a.args[0].op == "len" and a.args[1] == 1 and not b for a, b in ls)
        mins = [a.args[1] for a, b in ls if a.op == "ge" and b]
        maxs = [a.args[1] - 1 for a, b in ls if a.op == "ge" and not b]
        for a, b in ls:
            if a.op in ("starts", "ends", "has") and b:
                p = a.args[1]
                if empty and nonempty_pat(p):
                    return True
                if p.op == "c" and maxs and min(maxs) < len(p.args[0].encode("utf8")):
                    return True
            if a.op == "any" and b and empty:
                return True
            if a.op == "has" and not b:
                for a2, b2 in ls:
                    if b2 and a2.op in ("starts", "ends") and (a2.args[1] is a.args[1] or isc(a.args[1]) and isc(a2.args[1]) and a.args[1].args[0] in a2.args[1].args[0]):
                        return True
                    if b2 and a2.op == "has" and isc(a.args[1]) and isc(a2.args[1]) and a.args[1].args[0] in a2.args[1].args[0]:
                        return True
            if a.op == "starts":
                for a2, b2 in ls:
                    if a2.op == "starts" and b and not b2 and isc(a.args[1]) and isc(a2.args[1]) and a.args[1].args[0].startswith(a2.args[1].args[0]):
                        return True
                    if a2.op == "starts" and b and b2 and isc(a.args[1]) and isc(a2.args[1]):
                        u, w = sorted((a.args[1].args[0], a2.args[1].args[0]), key=len)
                        if not w.startswith(u):
                            return True
    return False


def nonempty_pat(p):
    return p.op == "c" and p.args[0] != "" or p.op in ("pset", "chr")


_same = {}


def same_term(x, y):
    """congruence: same operator, pairwise equal (or equivalent) parts"""
    if x is y:
        return True
    if x.op != y.op or len(x.args) != len(y.args):
        return False
    k = (x, y)
    r = _same.get(k)
    if r is not None:
        return r
    _same[k] = False
    r = True
    for a, b in zip(x.args, y.args):
        if a is b:
            continue
        if a.__class__ is T and b.__class__ is T:
            if not same_term(a, b):
                r = False
                break
        elif a.__class__ is N and b.__class__ is N:
            if not equiv(a, b):
                r = False
                break
        elif a != b:
            r = False
            break
    _same[k] = r
    return r


# ------------------------------------------------------------------ satisfiability of a diagram
def sat(n, cap=PATHS, want=None):
    """a consistent list of literals under which node n is true; None if there is none; Budget if unsure"""
    count = [0]
    L = Lits()
    lits = []
    weakhit = []
    dead = set()

    def go(n):
        if n is FALSE:
            return None
        count[0] += 1
        if count[0] > cap * 5:
            raise Budget()
        if n.atom is None:
            if n is TRUE:
                count[0] += 4
                if infeasible(lits):
                    return None
                if any(a.weak for a, _ in lits):
                    weakhit.append(list(lits))
                    if len(weakhit) > 300:
                        raise Budget()
                    return None
                return list(lits)
            weakhit.append(list(lits))
            return None
        a = n.atom
        for b, ch in ((True, n.hi), (False, n.lo)):
            if ch is FALSE:
                continue
            m = L.mark()
            if L.add(a, b):
                lits.append((a, b))
                r = go(ch)
                lits.pop()
                if r is not None:
                    return r
            L.undo(m)
        return None
    r = go(n)
    if r is None and weakhit:
        raise Weak(weakhit[0])
    return r


class Weak(Exception):
    def __init__(self, lits):
        self.lits = lits


_eqv = {}
_busy = set()


def equiv(a, b, cap=400):
    """provably equal nodes"""
    if a is b:
        return True
    k = (a, b) if a.id < b.id else (b, a)
    r = _eqv.get(k)
    if r is not None:
        return r
    if k in _busy:
        return False
    _busy.add(k)
    try:
        d = diffn(a, b)
        r = d is FALSE or sat(d, cap) is None
    except (TooBig, Budget, Weak):
        r = False
    finally:
        _busy.discard(k)
    _eqv[k] = r
    return r


def ne_term(x, y):
    """node: the two leaf terms differ"""
    if x is y:
        return FALSE
    if x.op == "undef" or y.op == "undef":
        return FALSE
    if x in (TT, FF) and y in (TT, FF):
        return TRUE
    if x.op == "undef" or y.op == "undef":
        return FALSE
    return NOT(eq(x, y))


def diffn(a, b):
    bl = (TRUE, FALSE)
    la = leaves(a)
    if all(x is TT or x is FF for x in la) and all(x is TT or x is FF for x in leaves(b)):
        return NOT(IFF(a, b))
    return apply(ne_term, a, b)


# ------------------------------------------------------------------ values
class Report:
    def __init__(self):
        self.checked, self.equal, self.undecided, self.bad = 0, 0, [], []


def compare(a, b, pre=TRUE, path="", rep=None, tyd=None):
    """a: implementation, b: reference.  pre: node of the inputs in question"""
    rep = rep or Report()
    if a is b:
        rep.checked += 1
        rep.equal += 1
        return rep
    if a is UNDEF or b is UNDEF or a is UNDEFN or b is UNDEFN:
        return rep
    A, B = a.__class__, b.__class__
    if A is N and B in (Agg, Enum):
        a = expand(a, b.ty)
        A = a.__class__
    if B is N and A in (Agg, Enum):
        b = expand(b, a.ty)
        B = b.__class__
    if A is Agg and B is Agg and a.inst is None and b.inst is None:
        for f in b.f:
            if f in a.f:
                compare(a.f[f], b.f[f], pre, path + "." + f, rep)
            else:
                rep.undecided.append((path + "." + f, "field only in the reference"))
        for f in a.f:
            if f not in b.f:
                rep.undecided.append((path + "." + f, "field only in the implementation"))
        return rep
    if A is Enum and B is Enum:
        compare_nodes(a.d, b.d, pre, path + "#variant", rep)
        for vn, p in b.p.items():
            q = a.p.get(vn)
            if not q:
                continue
            g = AND(pre, cond_of(b.d, lambda x: x.op == "c" and x.args[0] == vn), cond_of(a.d, lambda x: x.op == "c" and x.args[0] == vn))
            if g is FALSE:
                continue
            for f in p:
                if f in q:
                    compare(q[f], p[f], g, "%s(%s.%s)" % (path, vn, f), rep)
        return rep
    if A is ListV and B is ListV and len(a.items) == len(b.items):
        for i, (x, y) in enumerate(zip(a.items, b.items)):
            compare(x, y, pre, path + "[%d]" % i, rep)
        return rep
    compare_nodes(enc(a), enc(b), pre, path, rep)
    return rep


BORROWED = {"b:format_nsn": 0, "b:format_nsn_with_carrier": 0, "b:format_nsn_using_pattern": 0, "b:format_nsn_using_pattern_with_carrier": 0,
            "rerep": 1}


def borrowed(x):
    """what a Cow is when it is not an owned string"""
    if x.op in BORROWED:
        return x.args[BORROWED[x.op]]
    return None


def borrow_map(x):
    y = borrowed(x)
    return {x: y if isinstance(y, N) else leaf(y)}


_collapsed = {}


def collapse_owned(n):
    """ite(owned(x), f(x), f(what x borrows)) is f(x)"""
    if n.atom is None:
        return n
    r = _collapsed.get(n)
    if r is None:
        hi, lo = collapse_owned(n.hi), collapse_owned(n.lo)
        a = n.atom
        r = None
        if a.op == "cowowned" and borrowed(a.args[0]) is not None:
            mp = borrow_map(a.args[0])
            if loops.subst(hi, mp) is loops.subst(lo, mp):
                r = hi
        if r is None:
            r = ite(var(a), hi, lo)
        _collapsed[n] = r
    return r


def split_owned(a, b, pre, depth=0):
    """a call that returned its borrowed argument returned that argument"""
    a, b = collapse_owned(a), collapse_owned(b)
    if depth > 6:
        return [(a, b, pre)]
    for x in dict.fromkeys(atoms(a) + atoms(b)):
        if x.op == "cowowned" and borrowed(x.args[0]) is not None:
            v = var(x)
            n = NOT(v)
            mp = borrow_map(x.args[0])
            hi = split_owned(restrict(a, v), restrict(b, v), AND(pre, v), depth + 1)
            lo = split_owned(loops.subst(restrict(a, n), mp), loops.subst(restrict(b, n), mp), AND(pre, n), depth + 1)
            return hi + lo
    return [(a, b, pre)]


def compare_nodes(a, b, pre, path, rep):
    parts = [(a, b, pre)] if a is b else split_owned(a, b, pre)
    for x, y, p in parts:
        compare_nodes1(x, y, p, path, rep)


def compare_nodes1(a, b, pre, path, rep):
    rep.checked += 1
    if a is b:
        rep.equal += 1
        return
    try:
        a2, b2 = (restrict(a, pre), restrict(b, pre)) if a.size + b.size < 20000 else (a, b)
        if a2 is b2:
            rep.equal += 1
            return
        d = AND(diffn(a2, b2), pre)
        w = sat(d)
    except TooBig:
        rep.undecided.append((path, "diagram too large"))
        return
    except Budget:
        rep.undecided.append((path, "search budget"))
        return
    except Weak as e:
        rep.undecided.append((path, "depends on an unmodelled value: " + why_weak(e.lits, a, b)))
        return
    if w is None:
        rep.equal += 1
        return
    la, lb = at(a, w), at(b, w)
    if la.weak or lb.weak:
        rep.undecided.append((path, "depends on an unmodelled value: " + why_weak([], leaf(la), leaf(lb))))
        return
    rep.bad.append((path, w, la, lb))


def at(n, lits):
    d = dict(lits)
    while n.atom is not None:
        v = d.get(n.atom)
        if v is None:
            v = eval_lit(n.atom, lits)
        n = n.hi if v else n.lo
    return n.leaf


def eval_lit(a, lits):
    return not infeasible(list(lits) + [(a, True)])


def why_weak(lits, *ns):
    for a, _ in lits:
        if a.weak:
            return show_weak(a)
    for n in ns:
        if n.weak:
            return show_weak(n)
    return "?"


def show_weak(x):
    for y in subterms(x):
        if y.op == "unk":
            return "unk(%s)" % ", ".join(str(z)[:60] for z in y.args[:2])
    for y in subterms(x):
        if y.weak and y.op in WEAK:
            return str(y)[:150]
    return str(x)[:150]
