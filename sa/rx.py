"""Regular expressions of the `regex` crate (the subset in use): syntax tree, canonical text,
leftmost-first simulation, and decisions about languages.  Pure analysis of pattern texts."""
import sys, unicodedata
from functools import lru_cache

MAXCP = 0x110000
sys.setrecursionlimit(max(sys.getrecursionlimit(), 20000))


class RxError(Exception):
    pass


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ character sets: sorted disjoint [lo, hi)
def norm_set(rs):
    out = []
    for lo, hi in sorted(rs):
        if lo >= hi:
            continue
        if out and lo <= out[-1][1]:
            out[-1] = (out[-1][0], max(hi, out[-1][1]))
        else:
            out.append((lo, hi))
    return tuple(out)


def neg_set(s):
    out, p = [], 0
    for lo, hi in s:
        if p < lo:
            out.append((p, lo))
        p = hi
    if p < MAXCP:
        out.append((p, MAXCP))
    return tuple(out)


def in_set(s, ch):
    return any(lo <= ch < hi for lo, hi in s)


def and_set(a, b):
    return neg_set(norm_set(neg_set(a) + neg_set(b)))


@lru_cache(None)
def category(pred):
    out, start = [], None
    for cp in range(MAXCP):
        ok = PREDS[pred](chr(cp))
        if ok and start is None:
            start = cp
        if not ok and start is not None:
            out.append((start, cp))
            start = None
    if start is not None:
        out.append((start, MAXCP))
    return tuple(out)


PREDS = {
    "Nd": lambda c: unicodedata.category(c) == "Nd",
    "L": lambda c: unicodedata.category(c)[0] == "L",
    "Lu": lambda c: unicodedata.category(c) == "Lu",
    "Ll": lambda c: unicodedata.category(c) == "Ll",
    "N": lambda c: unicodedata.category(c)[0] == "N",
    "P": lambda c: unicodedata.category(c)[0] == "P",
    "Z": lambda c: unicodedata.category(c)[0] == "Z",
    "M": lambda c: unicodedata.category(c)[0] == "M",
    "s": lambda c: c in "\t\n\v\f\r\x85" or unicodedata.category(c) in ("Zs", "Zl", "Zp"),
    "w": lambda c: unicodedata.category(c)[0] in "LM" or unicodedata.category(c) in ("Nd", "Nl", "Pc") or c in "\u200c\u200d",
}


@lru_cache(None)
def fold(cp):
    c = chr(cp)
    out = {c}
    for d in (c.lower(), c.upper(), c.title(), c.casefold()):
        if len(d) == 1:
            out.add(d)
    more = set()
    for d in out:
        for e in (d.lower(), d.upper(), d.casefold()):
            if len(e) == 1:
                more.add(e)
    out |= more
    for a, b in (("k", "\u212a"), ("s", "\u017f"), ("\xe5", "\u212b")):
        if a in out or b in out:
            out |= {a, a.upper(), b}
    return tuple((ord(x), ord(x) + 1) for x in out)


_cased = None


def fold_set(s):
    global _cased
    if _cased is None:
        _cased = [cp for cp in range(MAXCP) if len(fold(cp)) > 1]
    import bisect
    extra = []
    for lo, hi in s:
        for k in range(bisect.bisect_left(_cased, lo), bisect.bisect_left(_cased, hi)):
            extra += fold(_cased[k])
    return norm_set(list(s) + extra)


# ------------------------------------------------------------------ syntax
# ("set", S) ("cat", [..]) ("alt", [..]) ("rep", x, lo, hi|None, greedy) ("grp", n, x) ("bol",) ("eol",) ("wb",neg)
class P:
    def __init__(self, s):
        self.s, self.i, self.ng, self.names = s, 0, 0, {}

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def parse(self):
        r = self.alt(False)
        if self.i < len(self.s):
            raise RxError("unexpected %r at %d" % (self.s[self.i], self.i))
        return r

    def alt(self, ci, x=False):
        alts, cur = [], []
        while True:
            c = self.peek()
            if c == "" or c == ")":
                break
            if c == "|":
                self.i += 1
                alts.append(mkcat(cur))
                cur = []
                continue
            if self.s.startswith("(?", self.i) and self.s[self.i + 2:self.i + 3] not in (":", "P", "<"):
                j = self.i + 2
                flags = ""
                while j < len(self.s) and self.s[j] in "imsUuxR-":
                    flags += self.s[j]
                    j += 1
                if self.s[j:j + 1] == ")":
                    if flags != "i" and flags != "-i":
                        raise Unsupported("flags " + flags)
                    ci = flags == "i"
                    self.i = j + 1
                    continue
                if self.s[j:j + 1] != ":":
                    raise RxError("bad group at %d" % self.i)
                if flags not in ("i", "-i"):
                    raise Unsupported("flags " + flags)
                self.i = j + 1
                x = self.alt(flags == "i")
                self.close()
                cur.append(self.post(x))
                continue
            cur.append(self.post(self.atom(ci)))
        alts.append(mkcat(cur))
        return mkalt(alts)

    def close(self):
        if self.peek() != ")":
            raise RxError("missing )")
        self.i += 1

    def atom(self, ci):
        c = self.peek()
        if c == "(":
            if self.peek(3) == "(?:":
                self.i += 3
                x = self.alt(ci)
                self.close()
                return ("nc", x)
            if self.peek(2) == "(?":
                j = self.s.find(">", self.i)
                if j < 0:
                    raise RxError("bad group")
                nm = self.s[self.i + 2:j].lstrip("P")
                if not nm.startswith("<") or not nm[1:].isidentifier():
                    raise RxError("unsupported group (look-around?)")
                self.i = j + 1
                self.ng += 1
                n = self.ng
                self.names[nm[1:]] = n
            else:
                self.i += 1
                self.ng += 1
                n = self.ng
            x = self.alt(ci)
            self.close()
            return ("grp", n, x)
        if c in "*+?":
            raise RxError("repetition of nothing at %d" % self.i)
        if c == "{":
            raise RxError("repetition of nothing at %d" % self.i)
        self.i += 1
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        if c == ".":
            return ("set", neg_set(((10, 11),)))
        if c == "[":
            return ("set", self.klass(ci))
        if c == "\\":
            return self.escape(ci)
        s = ((ord(c), ord(c) + 1),)
        return ("set", fold_set(s) if ci else s)

    def escape(self, ci, incls=False):
        if self.i >= len(self.s):
            raise RxError("trailing backslash")
        c = self.peek()
        self.i += 1
        if c in "dDsSwW":
            s = category({"d": "Nd", "s": "s", "w": "w"}[c.lower()])
            return ("set", neg_set(s) if c.isupper() else s)
        if c in "pP":
            if self.peek() == "{":
                j = self.s.find("}", self.i)
                if j < 0:
                    raise RxError("bad class")
                nm = self.s[self.i + 1:j]
                self.i = j + 1
            else:
                nm = self.peek()
                self.i += 1
            neg = c == "P"
            if nm.startswith("^"):
                nm, neg = nm[1:], not neg
            nm = {"Decimal_Number": "Nd", "Letter": "L", "Uppercase_Letter": "Lu", "Lowercase_Letter": "Ll"}.get(nm, nm)
            if nm not in PREDS:
                raise Unsupported("class " + nm)
            s = category(nm)
            if ci:
                s = fold_set(s)
            return ("set", neg_set(s) if neg else s)
        if c in "xuU":
            if self.peek() == "{":
                j = self.s.find("}", self.i)
                h = self.s[self.i + 1:j]
                self.i = j + 1
            else:
                n = {"x": 2, "u": 4, "U": 8}[c]
                h = self.s[self.i:self.i + n]
                self.i += n
            try:
                cp = int(h, 16)
            except ValueError:
                raise RxError("bad escape")
        elif c in "ntrfva":
            cp = ord({"n": "\n", "t": "\t", "r": "\r", "f": "\f", "v": "\v", "a": "\a"}[c])
        elif c == "b" and not incls:
            return ("wb", False)
        elif c == "B" and not incls:
            return ("wb", True)
        elif c == "A" and not incls:
            return ("bol",)
        elif c == "z" and not incls:
            return ("eol",)
        elif c.isalnum() or ord(c) >= 128 or c == "<" or c == ">":
            raise RxError("unrecognised escape \\%s" % c)
        else:
            cp = ord(c)
        s = ((cp, cp + 1),)
        return ("set", fold_set(s) if ci else s)

    def klass(self, ci):
        neg = False
        if self.peek() == "^":
            neg = True
            self.i += 1
        items = []
        first = True
        while True:
            c = self.peek()
            if c == "":
                raise RxError("unclosed class")
            if c == "]" and not first:
                self.i += 1
                break
            first = False
            if self.peek(2) in ("&&", "--", "~~"):
                raise Unsupported("class operation")
            if c == "[":
                if self.peek(2) == "[:":
                    j = self.s.find(":]", self.i)
                    raise Unsupported("posix class")
                self.i += 1
                items += self.klass(ci)
                continue
            lo = self.citem()
            if isinstance(lo, tuple):
                items += lo
                continue
            if self.peek() == "-" and self.peek(2) not in ("-]", "--"):
                self.i += 1
                if self.peek() == "[":
                    raise RxError("bad range")
                hi = self.citem()
                if isinstance(hi, tuple):
                    raise RxError("bad range")
                if hi < lo:
                    raise RxError("range out of order")
                items.append((lo, hi + 1))
            else:
                items.append((lo, lo + 1))
        s = norm_set(items)
        if ci:
            s = fold_set(s)
        return neg_set(s) if neg else s

    def citem(self):
        c = self.peek()
        self.i += 1
        if c == "\\":
            r = self.escape(False, True)[1]
            if len(r) == 1 and r[0][1] == r[0][0] + 1:
                return r[0][0]
            return tuple(r)
        return ord(c)

    def post(self, x):
        while True:
            c = self.peek()
            if c == "*":
                lo, hi = 0, None
            elif c == "+":
                lo, hi = 1, None
            elif c == "?":
                lo, hi = 0, 1
            elif c == "{":
                j = self.s.find("}", self.i)
                if j < 0:
                    raise RxError("unclosed repetition")
                b = self.s[self.i + 1:j].replace(" ", "")
                try:
                    if "," in b:
                        a, z = b.split(",")
                        lo, hi = int(a) if a else 0, int(z) if z else None
                    else:
                        lo = hi = int(b)
                except ValueError:
                    raise RxError("bad repetition {%s}" % b)
                if hi is not None and hi < lo:
                    raise RxError("bad repetition {%s}" % b)
                self.i = j
            else:
                return strip_nc(x)
            self.i += 1
            g = True
            if self.peek() == "?":
                g = False
                self.i += 1
            if x[0] in ("bol", "eol", "wb"):
                raise Unsupported("repeated assertion")
            x = mkrep(strip_nc(x), lo, hi, g)


def strip_nc(x):
    return x[1] if x[0] == "nc" else x


def mkcat(xs):
    out = []
    for x in xs:
        if x[0] == "cat":
            out += x[1]
        else:
            out.append(x)
    # x x* = x+ is left alone; only neighbouring single characters stay separate sets
    return out[0] if len(out) == 1 else ("cat", tuple(out))


def mkalt(xs):
    out = []
    for x in xs:
        out += list(x[1]) if x[0] == "alt" else [x]
    # neighbouring one-character alternatives are a class
    res = []
    for x in out:
        if res and x[0] == "set" and res[-1][0] == "set":
            res[-1] = ("set", norm_set(res[-1][1] + x[1]))
        elif res and x == res[-1]:
            continue
        else:
            res.append(x)
    # common first element: ab|ac = a(?:b|c)
    if len(res) > 1:
        fs = [list(x[1]) if x[0] == "cat" else [x] for x in res]
        if all(f for f in fs) and all(f[0] == fs[0][0] for f in fs) and fs[0][0][0] == "set":
            return mkcat([fs[0][0], mkalt([mkcat(f[1:]) for f in fs])])
    # x| = x?   and |x = x??
    if len(res) == 2 and res[1] == ("cat", ()):
        return mkrep(res[0], 0, 1, True)
    if len(res) == 2 and res[0] == ("cat", ()):
        return mkrep(res[1], 0, 1, False)
    return res[0] if len(res) == 1 else ("alt", tuple(res))


def mkrep(x, lo, hi, g):
    if (lo, hi) == (1, 1):
        return x
    if hi == 0:
        return ("cat", ()) if not groups_of(x) else ("rep", x, lo, hi, g)
    if lo == hi:
        g = True
    if x == ("cat", ()):
        return x
    return ("rep", x, lo, hi, g)


def groups_of(x):
    if x[0] == "grp":
        return True
    if x[0] in ("cat", "alt"):
        return any(groups_of(y) for y in x[1])
    if x[0] == "rep":
        return groups_of(x[1])
    return False


_parsed = {}


def parse(s):
    """-> (tree, number of groups); RxError for a syntax error, Unsupported outside the subset"""
    r = _parsed.get(s)
    if r is None:
        try:
            p = P(s)
            r = (p.parse(), p.ng)
        except (RxError, Unsupported) as e:
            r = e
        _parsed[s] = r
    if isinstance(r, Exception):
        raise r
    return r


def show_cp(cp):
    ch = chr(cp)
    return ch if ch.isalnum() and cp < 128 else "\\x{%x}" % cp if not (32 < cp < 127) else "\\" + ch


NAMED = ("Nd", "s", "w", "L")


def show_set(s):
    for n in NAMED:
        if category(n) == s:
            return {"Nd": "\\d", "s": "\\s", "w": "\\w", "L": "\\p{L}"}[n]
    if len(s) == 1 and s[0][1] == s[0][0] + 1:
        return show_cp(s[0][0])
    if s == neg_set(((10, 11),)):
        return "."
    n = ""
    for nm in ("Nd",):
        if all(in_set(s, lo) for lo, _ in category(nm)) and and_set(s, category(nm)) == category(nm) and len(s) < 2000:
            n = "\\d"
            s = and_set(s, neg_set(category(nm)))
    neg = ""
    if s and s[-1][1] == MAXCP and not n:
        neg, s = "^", neg_set(s)
    return "[" + neg + n + "".join(show_cp(lo) if hi == lo + 1 else show_cp(lo) + "-" + show_cp(hi - 1) for lo, hi in s) + "]"


def show(x):
    k = x[0]
    if k == "set":
        return show_set(x[1])
    if k == "cat":
        return "".join("(?:%s)" % show(y) if y[0] == "alt" else show(y) for y in x[1])
    if k == "alt":
        return "|".join(show(y) for y in x[1])
    if k == "grp":
        return "(" + show(x[2]) + ")"
    if k == "rep":
        b = show(x[1])
        if x[1][0] in ("cat", "alt", "rep", "bol", "eol", "wb"):
            b = "(?:%s)" % b
        lo, hi = x[2], x[3]
        q = {(0, None): "*", (1, None): "+", (0, 1): "?"}.get((lo, hi)) or ("{%d}" % lo if lo == hi else "{%d,%s}" % (lo, "" if hi is None else hi))
        return b + q + ("" if x[4] else "?")
    return {"bol": "^", "eol": "$"}.get(k) or ("\\B" if x[1] else "\\b")


_canon = {}


def canon(s):
    """canonical text with the same matches and captures; the text itself outside the subset"""
    r = _canon.get(s)
    if r is None:
        try:
            r = show(parse(s)[0])
        except (RxError, Unsupported, RecursionError):
            r = s
        _canon[s] = r
        _canon.setdefault(r, r)
    return r


# ------------------------------------------------------------------ programs (priority order, as the regex crate)
class Prog:
    def __init__(self, tree):
        self.ins = []
        self.c(tree)
        self.e("match")

    def e(self, *a):
        self.ins.append(list(a))
        if len(self.ins) > 60000:
            raise Unsupported("too large")
        return len(self.ins) - 1

    def c(self, x):
        k = x[0]
        if k == "set":
            self.e("set", x[1])
        elif k == "cat":
            for y in x[1]:
                self.c(y)
        elif k == "alt":
            ends = []
            for n, y in enumerate(x[1]):
                if n < len(x[1]) - 1:
                    sp = self.e("split", 0, 0)
                    self.ins[sp][1] = sp + 1
                    self.c(y)
                    ends.append(self.e("jmp", 0))
                    self.ins[sp][2] = len(self.ins)
                else:
                    self.c(y)
            for j in ends:
                self.ins[j][1] = len(self.ins)
        elif k == "grp":
            self.e("save", 2 * x[1])
            self.c(x[2])
            self.e("save", 2 * x[1] + 1)
        elif k == "rep":
            y, lo, hi, g = x[1:]
            for _ in range(lo):
                self.c(y)
            if hi is None:
                sp = self.e("split", 0, 0)
                self.c(y)
                self.e("jmp", sp)
                a, b = sp + 1, len(self.ins)
                self.ins[sp][1:] = [a, b] if g else [b, a]
            else:
                sps = []
                for _ in range(hi - lo):
                    sps.append(self.e("split", 0, 0))
                    self.c(y)
                for sp in sps:
                    a, b = sp + 1, len(self.ins)
                    self.ins[sp][1:] = [a, b] if g else [b, a]
        elif k in ("bol", "eol"):
            self.e(k)
        else:
            raise Unsupported(k)


@lru_cache(None)
def prog(s):
    return Prog(parse(s)[0]).ins


def closure(ins, pcs, at0, end, cut):
    """ordered threads at consuming instructions / match; cut: drop what a match outranks"""
    out, seen = [], set()
    stack = list(reversed(pcs))
    while stack:
        pc = stack.pop()
        if pc in seen:
            continue
        seen.add(pc)
        i = ins[pc]
        k = i[0]
        if k == "split":
            stack.append(i[2])
            stack.append(i[1])
        elif k == "jmp":
            stack.append(i[1])
        elif k == "save":
            stack.append(pc + 1)
        elif k == "bol":
            if at0:
                stack.append(pc + 1)
        elif k == "eol":
            if end:
                stack.append(pc + 1)
        else:
            out.append(pc)
            if k == "match" and cut:
                break
    return tuple(out)


def alphabet(*sets):
    """representatives of the classes the sets distinguish: [(cp, ...)]"""
    pts = {0}
    for s in sets:
        for lo, hi in s:
            pts.add(lo)
            if hi < MAXCP:
                pts.add(hi)
    sig = {}
    for p in sorted(pts):
        k = tuple(in_set(s, p) for s in sets)
        # prefer printable representatives
        o = sig.get(k)
        if o is None or (not (32 <= o < 127) and 32 <= p < 127):
            sig[k] = p
    return sorted(sig.values())


_alpha = {}


def classes(*progs):
    ss = []
    for ins in progs:
        for i in ins:
            if i[0] == "set" and i[1] not in ss:
                ss.append(i[1])
    k = tuple(ss)
    r = _alpha.get(k)
    if r is None:
        if sum(len(s) for s in ss) > 20000:
            raise Unsupported("alphabet")
        # fast partition
        pts = sorted({0} | {lo for s in ss for lo, hi in s} | {hi for s in ss for lo, hi in s if hi < MAXCP})
        import bisect
        starts = [([lo for lo, hi in s], s) for s in ss]
        sig = {}
        for p in pts:
            b = []
            for st, s in starts:
                j = bisect.bisect_right(st, p) - 1
                b.append(j >= 0 and p < s[j][1])
            key = tuple(b)
            o = sig.get(key)
            if o is None or (not (48 <= o < 58) and 48 <= p < 58) or (not (32 <= o < 127) and 32 <= p < 127):
                sig[key] = p
        r = _alpha[k] = sorted(sig.values())
    return r


class Auto:
    """deterministic simulation of one pattern under one reading"""
    # mode: "lang" = some match covers the whole string; "first" = the leftmost-first match from 0 covers it;
    #       "search" = some match somewhere; "prefix" = some match from 0
    def __init__(self, pat, mode):
        self.ins, self.mode = prog(pat), mode
        self.memo = {}

    def start(self):
        return ("s", self.norm([0], True), False)

    def norm(self, pcs, at0):
        if self.mode == "first":
            # eol-dependent matches cut only at the end: keep the raw list; cutting applies to unconditional matches
            return closure(self.ins, pcs, at0, False, True) if not self.has_eol() else tuple(pcs)
        return tuple(sorted(set(closure(self.ins, pcs, at0, False, False)))) if not self.has_eol() else tuple(sorted(set(pcs)))

    def has_eol(self):
        if not hasattr(self, "_eol"):
            self._eol = any(i[0] == "eol" for i in self.ins)
        return self._eol

    def live(self, st, end):
        tag, pcs, done = st
        if self.has_eol():
            return closure(self.ins, pcs, tag == "s", end, self.mode == "first")
        return pcs

    def accepts(self, st):
        if st[2]:
            return True
        return any(self.ins[p][0] == "match" for p in self.live(st, True))

    def step(self, st, cp):
        k = (st, cp)
        r = self.memo.get(k)
        if r is not None:
            return r
        tag, _, done = st
        pcs = self.live(st, False)
        if self.mode in ("search", "prefix") and (done or any(self.ins[p][0] == "match" for p in pcs)):
            r = ("x", (), True)
        else:
            nx = []
            for p in pcs:
                i = self.ins[p]
                if i[0] == "set" and in_set(i[1], cp):
                    nx.append(p + 1)
            if self.mode == "search":
                nx = nx + [0]
            r = ("t", self.norm(nx, False), False)
        self.memo[k] = r
        return r


def distinguish(a, b, cap=20000):
    """a: Auto, b: Auto -> a string one accepts and the other does not, None if there is none"""
    al = classes(a.ins, b.ins)
    s0 = (a.start(), b.start())
    seen = {s0: None}
    q = [s0]
    n = 0
    while n < len(q):
        x, y = q[n]
        if a.accepts(x) != b.accepts(y):
            out, cur = [], q[n]
            while seen[cur] is not None:
                cur, ch = seen[cur]
                out.append(chr(ch))
            return "".join(reversed(out))
        n += 1
        for cp in al:
            z = (a.step(x, cp), b.step(y, cp))
            if z not in seen:
                seen[z] = (q[n - 1], cp)
                q.append(z)
                if len(q) > cap:
                    raise Unsupported("state space")
    return None


_dist = {}


def differ(p, q, mode="lang"):
    """-> (True, witness) / (False, None) / (None, why)"""
    k = (p, q, mode)
    if k not in _dist:
        try:
            w = distinguish(Auto(p, mode), Auto(q, mode))
            _dist[k] = (True, w) if w is not None else (False, None)
        except (RxError, Unsupported, RecursionError) as e:
            _dist[k] = (None, str(e))
    return _dist[k]


def full_match_gap(p):
    """a string that p matches as a whole although its leftmost-first match is shorter"""
    return distinguish(Auto(p, "lang"), Auto(p, "first"))


def run(p, s):
    """leftmost-first captures of the first match: list of spans, or None"""
    tree, ng = parse(p)
    ins = prog(p)
    n = 2 * (ng + 1)
    for start in range(len(s) + 1):
        best = None
        threads = [(0, (None,) * n)]
        for pos in range(start, len(s) + 1):
            seen, out = set(), []
            stack = list(reversed(threads))
            stop = False
            while stack and not stop:
                pc, cap = stack.pop()
                if pc in seen:
                    continue
                seen.add(pc)
                i = ins[pc]
                k = i[0]
                if k == "split":
                    stack += [(i[2], cap), (i[1], cap)]
                elif k == "jmp":
                    stack.append((i[1], cap))
                elif k == "save":
                    cc = list(cap)
                    cc[i[1]] = pos
                    stack.append((pc + 1, tuple(cc)))
                elif k == "bol":
                    if pos == 0:
                        stack.append((pc + 1, cap))
                elif k == "eol":
                    if pos == len(s):
                        stack.append((pc + 1, cap))
                elif k == "match":
                    best = (pos, cap)
                    stop = True
                else:
                    out.append((pc, cap))
            if pos == len(s):
                break
            threads = [(pc + 1, cap) for pc, cap in out if in_set(ins[pc][1], ord(s[pos]))]
            if not threads:
                break
        if best is not None:
            cap = list(best[1])
            cap[0], cap[1] = start, best[0]
            return [(cap[2 * g], cap[2 * g + 1]) for g in range(ng + 1)]
    return None


if __name__ == "__main__":
    print(canon(sys.argv[1]))
    print(full_match_gap(sys.argv[1]))
