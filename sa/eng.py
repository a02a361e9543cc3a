"""Evaluates typed MIR to gated values, function by function, without paths:
blocks are merged at joins, calls are inlined or become terms, loops are summarised."""
import os
import re
from .vals import *


class St:
    __slots__ = ("g", "m")

    def __init__(self, g, m):
        self.g, self.m = g, m


class Unsupported(Exception):
    pass


class Frame:
    __slots__ = ("fid", "inst", "body", "eng", "cfg")


_fid = [0]


class Cfg:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = [self.succs(b["t"]) for b in bl]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        self.rpo = order
        self.idx = {b: i for i, b in enumerate(order)}
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c2 = p, new
                    while a != c2:
                        while self.idx[a] > self.idx[c2]:
                            a = idom[a]
                        while self.idx[c2] > self.idx[a]:
                            c2 = idom[c2]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                d = b
                while True:
                    if d == s:
                        break
                    if d == 0:
                        d = None
                        break
                    d = idom[d]
                if d is not None:
                    body_ = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        z = stk.pop()
                        if z not in body_:
                            body_.add(z)
                            stk.extend(self.pred[z])

    @staticmethod
    def succs(tm):
        k = tm[0]
        if k == "goto":
            return [tm[1]]
        if k == "switch":
            return list(dict.fromkeys([x[1] for x in tm[2]] + ([tm[3]] if tm[3] is not None else [])))
        if k == "drop":
            return [tm[2]]
        if k == "call":
            return [tm[4]] if tm[4] is not None else []
        if k == "assert":
            return [tm[5]]
        return []


INTS = {"i16": 16, "i32": 32, "i64": 64}  # matched values are printed unsigned


class Site:
    __slots__ = ("g", "kind", "fn", "span", "info", "stack")

    def __init__(self, g, kind, fn, span, info, stack):
        self.g, self.kind, self.fn, self.span, self.info, self.stack = g, kind, fn, span, info, stack


class Engine:
    MAXU = 70
    DEPTH = 60

    def __init__(self, dump, boundaries=(), models=None, self_value=None):
        self.d = dump
        self.I = dump["instances"]
        self.types = Types(dump)
        self.raw = dump["types"]
        self.cfgs = {}
        self.boundaries = boundaries
        from . import models as M
        self.M = M
        self.panics, self.events, self.ranges = [], [], {}
        self.stack = []
        self.loops = []
        self.cur = None
        self.stuck = []
        self.notes = []
        self.inlined = set()
        self.opts = {}
        self.wcount = 0

    # ---------------------------------------------------------- type helpers
    def ty(self, i):
        return self.types.get(i)

    def adtname(self, i):
        x = self.raw[i]
        return x["name"].split("::")[-1] if x["k"] == "adt" else None

    def discriminants(self, i):
        """variant -> discriminant, of this dump's type i"""
        while True:
            x = self.raw[i]
            if x["k"] in ("ref", "ptr"):
                i = x["t"]
            elif x["k"] == "adt" and x["name"].split("::")[-1] in TRANSPARENT:
                i = [a for a in x["args"] if isinstance(a, int)][0]
            else:
                break
        return {v["name"]: int(v["discr"]) for v in x.get("variants", ())}

    def strip_ref(self, i):
        while self.raw[i]["k"] in ("ref", "ptr"):
            i = self.raw[i]["t"]
        return i

    # ---------------------------------------------------------- places
    def proj_type(self, i, e):
        x = self.raw[i]
        if e[0] == "*":
            if x["k"] in ("ref", "ptr"):
                return x["t"]
            if x["k"] == "adt":
                return x["args"][0]
        if e[0] == "f":
            return e[3]
        if e[0] in ("i", "ci"):
            if x["k"] in ("slice", "array"):
                return x["t"]
        return i

    def load_key(self, st, key):
        return st.m.get(key, UNDEF)

    def read(self, fr, st, place):
        v = st.m.get((fr.fid, place[0]), UNDEF)
        ti = fr.body["locals"][place[0]]
        vn = None
        for e in place[1]:
            v, ti, vn = self.project(fr, st, v, ti, vn, e)
        return v

    def project(self, fr, st, v, ti, vn, e):
        x = self.raw[ti]
        nti = self.proj_type(ti, e)
        k = e[0]
        if k == "*":
            if x["k"] == "ref" and x["mut"] or x["k"] == "ptr":
                v = self.deref(st, v)
            return v, nti, None
        if k == "d":
            return v, nti, e[2]
        if k == "f":
            if x["k"] == "adt" and self.adtname(ti) in TRANSPARENT:
                return v, nti, None
            fty = self.ty(nti)
            if vn is not None and x["k"] == "adt" and x["kind"] == "enum":
                return payload(v, vn, e[2], fty), nti, None
            return field(v, e[2], fty), nti, None
        if k == "i":
            idx = st.m.get((fr.fid, e[1]), UNDEF)
            return self.M.index(self, v, idx, self.ty(nti)), nti, None
        if k == "ci":
            return self.M.const_index(self, v, e[1:], self.ty(nti)), nti, None
        if k == "ss":
            return self.M.const_slice(self, v, e[1:]), nti, None
        return unk("proj:" + k), nti, None

    def deref(self, st, v):
        if isinstance(v, N):
            if v.atom is None:
                if v.leaf.op == "ptr":
                    return self.load_ptr(st, v.leaf)
                return v
            ps = [x for x in leaves(v) if x.op == "ptr"]
            if ps:
                r = None
                for p in leaves(v):
                    val = self.load_ptr(st, p) if p.op == "ptr" else leaf(p)
                    r = val if r is None else merge(cond_of(v, lambda y: y is p), val, r)
                return r
        return v

    def load_ptr(self, st, p):
        fid, loc, proj = p.args
        v = st.m.get((fid, loc), UNDEF)
        for e in proj:
            if e[0] == "f":
                v = field(v, e[1], e[2])
            elif e[0] == "d":
                v = payload(v, e[1], e[2], e[3])
            elif e[0] == "i":
                v = self.M.index(self, v, e[1], e[2])
            elif e[0] == "k":
                v = v.d[e[1].leaf] if v.__class__ is MapV and e[1].atom is None and e[1].leaf in v.d else apply(self.M.mget, enc(v), e[1])
        return v

    def resolve(self, fr, st, place):
        """-> list of (cond, key, proj) cells denoted by place (through &mut)"""
        cells = [(TRUE, (fr.fid, place[0]), ())]
        ti = fr.body["locals"][place[0]]
        vn = None
        for e in place[1]:
            x = self.raw[ti]
            nti = self.proj_type(ti, e)
            k = e[0]
            if k == "*":
                if x["k"] == "ref" and x["mut"] or x["k"] == "ptr":
                    out = []
                    for cnd, key, proj in cells:
                        pv = self.load_ptr(st, t("ptr", key[0], key[1], proj))
                        if isinstance(pv, N):
                            for p in leaves(pv):
                                if p.op == "ptr":
                                    g = AND(cnd, cond_of(pv, lambda y: y is p))
                                    out.append((g, (p.args[0], p.args[1]), p.args[2]))
                                else:
                                    out.append((cnd, None, p))
                        else:
                            out.append((cnd, key, proj))
                    cells = out
                vn = None
            elif k == "d":
                vn = e[2]
            elif k == "f":
                if x["k"] == "adt" and self.adtname(ti) in TRANSPARENT:
                    pass
                else:
                    fty = self.ty(nti)
                    if vn is not None and x["k"] == "adt" and x["kind"] == "enum":
                        pe = ("d", vn, e[2], fty, self.ty(ti))
                    else:
                        pe = ("f", e[2], fty, self.ty(ti))
                    cells = [(cnd, key, proj + (pe,) if key is not None else proj) for cnd, key, proj in cells]
                vn = None
            elif k == "i":
                idx = st.m.get((fr.fid, e[1]), UNDEF)
                cells = [(cnd, key, proj + (("i", idx, self.ty(nti), self.ty(ti)),)) for cnd, key, proj in cells]
            else:
                cells = [(cnd, key, proj + (("?",),)) for cnd, key, proj in cells]
            ti = nti
        return cells

    def update(self, v, proj, new):
        if not proj:
            return new
        e = proj[0]
        if e[0] == "f":
            v = expand(v, e[3]) if not isinstance(v, Agg) else v
            if v is UNDEF:
                v = Agg(e[3], {}, None)
            if not isinstance(v, Agg):
                return fresh_unk("update")
            f = dict(v.f)
            f[e[1]] = self.update(f.get(e[1], UNDEF), proj[1:], new)
            return Agg(v.ty, f, v.inst)
        if e[0] == "d":
            v = expand(v, e[4]) if not isinstance(v, Enum) else v
            if v is UNDEF:
                v = Enum(e[4], cn(e[1]), {})
            if not isinstance(v, Enum):
                return fresh_unk("update")
            p = {a: dict(b) for a, b in v.p.items()}
            q = p.setdefault(e[1], {})
            q[e[2]] = self.update(q.get(e[2], UNDEF), proj[1:], new)
            return Enum(v.ty, v.d, p)
        if e[0] == "i":
            return self.M.update_index(self, v, e[1], lambda old: self.update(old, proj[1:], new))
        if e[0] == "k":
            return self.M.map_update(self, v, e[1], lambda old: self.update(old, proj[1:], new))
        return fresh_unk("update")

    def write_cells(self, st, cells, new):
        for cnd, key, proj in cells:
            if key is None:
                self.note("store through an opaque pointer")
                continue
            old = st.m.get(key, UNDEF)
            nv = self.update(old, proj, new)
            if cnd is not TRUE:
                nv = merge(cnd, nv, old)
            st.m[key] = nv

    def write(self, fr, st, place, new):
        if not place[1]:
            st.m[(fr.fid, place[0])] = new
        else:
            self.write_cells(st, self.resolve(fr, st, place), new)

    def store_ptr(self, st, pv, new):
        """*pv = new for a pointer value"""
        if isinstance(pv, N):
            cells = []
            for p in leaves(pv):
                if p.op == "ptr":
                    cells.append((cond_of(pv, lambda y: y is p), (p.args[0], p.args[1]), p.args[2]))
                else:
                    cells.append((TRUE, None, p))
            self.write_cells(st, cells, new)
        else:
            self.note("store through an opaque pointer")

    def note(self, s):
        self.notes.append((s, self.where()))

    def where(self):
        return self.stack[-1][1] if self.stack else ""

    # ---------------------------------------------------------- operands
    def operand(self, fr, st, o):
        if o[0] in ("p", "m"):
            return self.read(fr, st, o[1])
        if o[0] == "c":
            return self.const(o[1]["v"], o[1].get("t"))
        return fresh_unk("operand:" + str(o[0]))

    def const(self, v, ti):
        ty = self.ty(ti) if ti is not None else None
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return cn(v)
        if isinstance(v, str):
            try:
                return cn(int(v))
            except ValueError:
                return unk("const:" + v)
        if v is None:
            return unk("const")
        if "char" in v:
            x = v["char"]
            return cn(ord(x) if isinstance(x, str) else int(x))
        if "str" in v:
            return cn(v["str"])
        if "int" in v:
            return cn(int(v["int"]))
        if "ref" in v:
            sub = None
            if ti is not None and self.raw[ti]["k"] in ("ref", "ptr"):
                sub = self.raw[ti]["t"]
            return self.const(v["ref"], sub)
        if "refslice" in v or "array" in v:
            xs = v.get("refslice", v.get("array"))
            ei = None
            if ti is not None:
                si = self.strip_ref(ti)
                if self.raw[si]["k"] in ("slice", "array"):
                    ei = self.raw[si]["t"]
            if len(xs) > 600:
                return leaf(t("bigconst", len(xs), hash(str(xs)[:2000])))
            return ListV([self.const(x, ei) for x in xs], ty)
        if "refslice_hex" in v or "array_hex" in v:
            h = v.get("refslice_hex", v.get("array_hex"))
            if len(h) > 1200:
                return leaf(t("bigconst", len(h) // 2, h[:64]))
            return ListV([cn(b) for b in bytes.fromhex(h)], ty)
        if "tuple" in v:
            subs = self.raw[ti]["ts"] if ti is not None and self.raw[ti]["k"] == "tuple" else [None] * len(v["tuple"])
            return Agg(ty, {str(n): self.const(x, s) for n, (x, s) in enumerate(zip(v["tuple"], subs))})
        if "variant" in v or "adt" in v:
            return self.const_adt(v, ti, ty)
        if "zst" in v:
            if ti is not None and self.raw[ti]["k"] == "tuple":
                return Agg(ty, {})
            if ti is not None and self.raw[ti]["k"] == "adt":
                return Agg(ty, {})
            return Agg(ty, {}) if ty is not None else unk("zst")
        if "closure" in v:
            x = v["closure"]
            key = x if isinstance(x, str) else x.get("inst")
            return Agg(ty, {}, key)
        if "fnname" in v:
            return Agg(ty, {}, v.get("fn") or v["fnname"])
        if "static" in v:
            if re.search(r"\b(LazyLock|OnceLock|Lazy|OnceCell|LazyCell)\b", str(ty)) or re.search(r"\b(LazyLock|OnceLock|Lazy)<", str(getattr(ty, "s", ""))):
                return unk("static:" + str(v["static"])[-60:])  # a constant computed at run time
            return leaf(t("static", str(v["static"]), ty=ty))
        return unk("const:" + str(sorted(v))[:60])

    def const_adt(self, v, ti, ty):
        if ti is not None and self.adtname(ti) in TRANSPARENT:
            fs = v.get("fields") or []
            return self.const(fs[0] if not isinstance(fs, dict) else next(iter(fs.values())), self.raw[ti]["args"][0]) if fs else unk("const adt")
        if ty is None or ty.k != "adt":
            return unk("const adt")
        x = self.raw[ti]
        vi = v.get("variant", 0) or 0
        var_ = x["variants"][vi]
        fs = v.get("fields") or []
        f = {fd[0]: self.const(val, fd[1]) for fd, val in zip(var_["fields"], fs)}
        if is_enum(ty):
            return Enum(ty, cn(var_["name"]), {var_["name"]: f} if f else {})
        return Agg(ty, f)

    # ---------------------------------------------------------- rvalues
    def rvalue(self, fr, st, r, dty, span):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "reborrow":
            return self.read(fr, st, r[1]) if isinstance(r[1], list) and isinstance(r[1][0], int) else self.operand(fr, st, r[1])
        if k == "ref":
            if r[1]:
                cells = self.resolve(fr, st, r[2])
                out = None
                for cnd, key, proj in cells:
                    x = leaf(t("ptr", key[0], key[1], proj)) if key is not None else leaf(proj)
                    out = x if out is None else ite(cnd, x, out)
                return out
            return self.read(fr, st, r[2])
        if k == "discr":
            ti = self.place_type(fr, r[1])
            n = self.adtname(ti)
            v = self.read(fr, st, r[1])
            if n == "Cow":
                return apply(lambda x: ite(var(t("cowowned", x)), cn(1), cn(0)), enc(v))
            ty = self.ty(ti)
            d = discr(v, ty)
            dm = self.discriminants(ti)
            return apply(lambda x: cn(dm[x.args[0]]) if x.op == "c" and x.args[0] in dm else leaf(t("unk", "discr", x, weak=True)), d)
        if k == "len":
            return self.M.seqlen(self, self.read(fr, st, r[1]))
        if k == "agg":
            return self.aggregate(fr, st, r, dty)
        if k == "bin":
            return self.M.binop(self, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), dty)
        if k == "cbin":
            v = self.M.binop(self, r[1], self.operand(fr, st, r[2]), self.operand(fr, st, r[3]), dty.fields["0"] if dty is not None and dty.k == "tuple" else dty)
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            ov = self.M.overflow(self, r[1], a, b, v, dty.fields["0"] if dty is not None and dty.k == "tuple" else None)
            return Agg(dty, {"0": v, "1": ov})
        if k == "un":
            return self.M.unop(self, r[1], self.operand(fr, st, r[2]))
        if k == "cast":
            return self.M.cast(self, r[1], self.operand(fr, st, r[2]), dty, self.operand_type(fr, r[2]))
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            try:
                n = int(r[2])
            except (TypeError, ValueError):
                return unk("repeat")
            return ListV([v] * n) if n <= 64 else unk("repeat")
        return fresh_unk("rvalue:" + k)

    def operand_type(self, fr, o):
        """the type of an operand, None where it cannot be told"""
        try:
            if o[0] in ("p", "m"):
                return self.ty(self.place_type(fr, o[1]))
            return self.ty(o[1]["t"]) if o[0] == "c" and o[1].get("t") is not None else None
        except (KeyError, IndexError, TypeError):
            return None

    def place_type(self, fr, place):
        ti = fr.body["locals"][place[0]]
        for e in place[1]:
            ti = self.proj_type(ti, e)
        return ti

    def aggregate(self, fr, st, r, dty):
        k = r[1]
        ops = [self.operand(fr, st, o) for o in r[2]]
        if k == "array" or k[0] == "array":
            return ListV(ops, dty)
        if k == "tuple" or k[0] == "tuple":
            return Agg(dty, {str(n): v for n, v in enumerate(ops)})
        if k[0] == "adt":
            if dty is not None and dty.k == "adt":
                lay = layout(dty)
                vn = k[3]
                names = list(lay.get(vn, {}))
                f = dict(zip(names, ops))
                if is_enum(dty):
                    return Enum(dty, cn(vn), {vn: f} if f else {})
                return Agg(dty, f)
            if len(ops) >= 1:  # transparent wrappers
                return ops[0]
            return unk("agg")
        if k[0] == "closure":
            return Agg(dty, {str(n): v for n, v in enumerate(ops)}, k[2])
        return ops[0] if len(ops) == 1 else unk("agg:" + str(k[0]))

    # ---------------------------------------------------------- calls
    def cfg(self, key):
        r = self.cfgs.get(key)
        if r is None:
            r = self.cfgs[key] = Cfg(self.I[key]["body"])
        return r

    def call_inst(self, key, args, st, span=None):
        """inlines instance key; returns (value, state) with state None if it never returns"""
        ins = self.I[key]
        name = short(ins["name"])
        b = self.boundary(ins)
        if b is not None and self.stack:
            return self.boundary_call(b, ins, args, st), st
        m = self.M.lookup(self, ins["name"], ins)
        if m is not None and name in self.opts.get("raw", ()) and ins.get("body") and ins.get("crate", "").startswith(("rlibphonenumber", "vspec")):
            m = None
        if m is not None:
            return self.model_call(m, ins, args, st, span)
        if not ins.get("body"):
            if ins.get("empty_shim"):
                return unk("shim"), st
            return self.unknown_call(ins["name"], args, st), st
        rec = sum(1 for s in self.stack if s[0] == key)
        if rec >= 3 or len(self.stack) > self.DEPTH:
            self.note("recursion cut at " + ins["name"])
            return self.unknown_call(ins["name"], args, st), st
        self.inlined.add(key)
        body = ins["body"]
        fr = Frame()
        _fid[0] += 1
        fr.fid, fr.inst, fr.body, fr.eng = _fid[0], ins, body, self
        fr.cfg = self.cfg(key)
        argc = body["argc"]
        sp = body.get("spread")
        args = list(args)
        is_closure = self.raw[body["locals"][1]]["k"] in ("closure",) or (len(body["locals"]) > 1 and self.raw[self.strip_ref(body["locals"][1])]["k"] == "closure") if argc >= 1 else False
        if len(args) != argc and is_closure and len(args) == 2 and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f.values())
        if len(args) != argc:
            if sp and len(args) == argc + 1:
                pass
            return self.unknown_call(ins["name"], args, st), st
        for n, a in enumerate(args):
            st.m[(fr.fid, n + 1)] = a
        self.stack.append((key, "%s:%s" % (ins["name"].split("::")[-1], span), ins))
        try:
            _, exits = self.region(fr, 0, st, None)
        finally:
            self.stack.pop()
        rets = [s for tg, s in exits if tg == "ret"]
        s = self.join(rets)
        if s is None:
            return UNDEF, None
        v = s.m.get((fr.fid, 0), UNDEF)
        if v is UNDEF and self.raw[body["locals"][0]]["k"] == "tuple":
            v = Agg(self.ty(body["locals"][0]), {})
        s.m = {k: x for k, x in s.m.items() if k[0] != fr.fid}
        return v, s

    def boundary(self, ins):
        bs = self.boundaries
        if not ins.get("crate", "").startswith(("rlibphonenumber", "vspec")):
            return None
        n = ins["name"]
        if "generated::" in n:
            return None
        s = short(n)
        if s not in bs:
            return None
        f = bs[s] if isinstance(bs, dict) else None
        if f and not f(ins):
            return None
        return s

    def boundary_call(self, name, ins, args, st):
        body = ins.get("body")
        ltys = body["locals"] if body else None
        # drop self-like and matcher parameters
        keep = []
        for i, a in enumerate(args):
            if ltys is not None:
                rn = self.raw[self.strip_ref(ltys[i + 1])]
                if rn["k"] == "adt" and rn["name"].split("::")[-1] in self.M.SELF_TYPES or rn["k"] == "dyn":
                    continue
                if rn["k"] == "adt" and rn["name"].split("::")[-1] == "Box" and self.raw[rn["args"][0]]["k"] == "dyn":
                    continue
            keep.append((i, a))
        vals, muts = [], []
        for i, a in keep:
            if isinstance(a, N) and any(x.op == "ptr" for x in leaves(a)):
                muts.append((i, a))
                vals.append(enc(self.deref(st, a)))
            else:
                vals.append(enc(a))
        rty = self.ty(ltys[0]) if ltys else None
        self.event(st, "bcall", name, [i for i, a in keep], vals)
        rv = self.M.boundary_result(self, name, vals, rty)
        for n, (i, a) in enumerate(muts):
            mty = self.ty(ltys[i + 1])
            mty = mty.sub if mty.k == "mut" else mty
            self.store_ptr(st, a, apply(lambda *xs: opaque(t("bm", name, n, *xs, ty=mty), mty), *vals))
        return rv

    def unknown_call(self, name, args, st, ty=None):
        """a call nobody modelled: weak result, and everything reachable by &mut becomes weak"""
        self.note("unmodelled call: " + name)
        vals = []
        for a in args:
            vals.append(enc(self.deref(st, a)) if isinstance(a, N) else enc(a))
        try:
            r = apply(lambda *xs: leaf(t("unk", "call:" + name, *xs, ty=ty, weak=True)), *vals)
        except TooBig:
            r = fresh_unk("call:" + name, ty)
        for i, a in enumerate(args):
            self.havoc(st, a, "call:%s:%d" % (name, i))
        if ty is not None and ty.k == "bool":
            r = apply(lambda x: var(x), r)
        return r

    def havoc(self, st, a, why):
        if isinstance(a, N):
            if any(x.op == "ptr" for x in leaves(a)):
                self.store_ptr(st, a, fresh_unk(why))
        elif isinstance(a, Agg):
            for x in a.f.values():
                self.havoc(st, x, why)
        elif isinstance(a, Enum):
            for p in a.p.values():
                for x in p.values():
                    self.havoc(st, x, why)

    def model_call(self, m, ins, args, st, span):
        try:
            r = m(self, ins, args, st)
        except TooBig:
            r = fresh_unk("toobig:" + short(ins["name"]))
        if isinstance(r, tuple) and len(r) == 2 and (r[1] is None or isinstance(r[1], St)):
            return r
        return r, st

    def call_closure(self, f, args, st):
        """calls a closure / fn item value with positional args"""
        if isinstance(f, N) and f.atom is None and f.leaf.op == "ptr":
            f = self.deref(st, f)
        if isinstance(f, Agg) and f.inst is not None:
            key = f.inst
            if key not in self.I:
                m = self.M.lookup(self, key, None)
                if m is not None:
                    return self.model_call(m, {"name": key}, list(args), st, None)
                return self.unknown_call("fn " + str(key), args, st), st
            ins = self.I[key]
            body = ins.get("body")
            if body and self.raw[self.strip_ref(body["locals"][1])]["k"] == "closure" if body and body["argc"] >= 1 else False:
                # environment: by reference or value
                env = f
                a0 = self.raw[body["locals"][1]]
                if a0["k"] == "ref" and a0["mut"]:
                    # environment lives in a scratch cell (captures that are &mut stay pointers)
                    _fid[0] += 1
                    st.m[(_fid[0], 0)] = f
                    env = leaf(t("ptr", _fid[0], 0, ()))
                return self.call_inst(key, [env] + list(args), st, None)
            return self.call_inst(key, list(args), st, None)
        return self.unknown_call("closure", [f] + list(args), st), st

    # ---------------------------------------------------------- states
    def join(self, sts):
        sts = [s for s in sts if s is not None and s.g is not FALSE]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.join2(r, s)
        return r

    def join2(self, a, b):
        g = OR(a.g, b.g)
        if a.m is b.m:
            return St(g, a.m)
        m = {}
        # choose the smaller guard to test
        ga, ma, mb = a.g, a.m, b.m
        sel = restrict(ga, g)
        for k, va in ma.items():
            vb = mb.get(k, UNDEF)
            if va is vb:
                m[k] = va
            elif vb is UNDEF:
                m[k] = va
            else:
                v = merge(sel, va, vb)
                m[k] = restrictv(v, g) if g is not TRUE else v
        for k, vb in mb.items():
            if k not in ma:
                m[k] = vb
        return St(g, m)

    # ---------------------------------------------------------- regions
    def region(self, fr, start, st, loop):
        """runs the blocks reachable from start (inside loop, if given).
        returns (back states, [(exit target | 'ret', state)])"""
        cfg = fr.cfg
        pend = {start: [st]}
        backs, exits = [], []
        inside = cfg.loops[loop] if loop is not None else None
        first = True
        order = cfg.rpo if inside is None else [b for b in cfg.rpo if b in inside]

        def out(target, s):
            if s is None or s.g is FALSE:
                return
            if loop is not None and target == loop:
                backs.append(s)
            elif inside is not None and target not in inside:
                exits.append((target, s))
            else:
                pend.setdefault(target, []).append(s)

        for b in order:
            if b not in pend:
                continue
            s = self.join(pend.pop(b))
            if s is None:
                continue
            if b in cfg.loops and not (loop == b and first):
                for tg, es in self.loop(fr, b, s):
                    if tg == "ret":
                        exits.append((tg, es))
                    else:
                        out(tg, es)
                continue
            if b == loop:
                first = False
            for tg, es in self.block(fr, b, s):
                if tg == "ret":
                    exits.append((tg, es))
                else:
                    out(tg, es)
        return backs, exits

    def block(self, fr, b, s):
        blk = fr.body["blocks"][b]
        st = St(s.g, dict(s.m))
        for x in blk["s"]:
            if x[0] == "=":
                pl = x[1]
                dty = self.ty(self.place_type(fr, pl))
                try:
                    v = self.rvalue(fr, st, x[2], dty, x[3] if len(x) > 3 else None)
                except TooBig:
                    v = fresh_unk("toobig", dty)
                self.write(fr, st, pl, v)
            elif x[0] == "dead":
                pass
            elif x[0] == "setd":
                pl = x[1]
                ty = self.ty(self.place_type(fr, pl))
                v = self.read(fr, st, pl)
                vn = list(layout(ty))[x[2]] if isinstance(x[2], int) else x[2]
                e = expand(v, ty) if not isinstance(v, Enum) else v
                self.write(fr, st, pl, Enum(ty, cn(vn), e.p if isinstance(e, Enum) else {}))
        tm = blk["t"]
        k = tm[0]
        span = "%s:%s" % tuple(blk["sp"][:2]) if blk.get("sp") else "?"
        if k == "goto":
            return [(tm[1], st)]
        if k == "return":
            return [("ret", st)]
        if k == "drop":
            return [(tm[2], st)]
        if k == "switch":
            v = self.operand(fr, st, tm[1])
            arms = tm[2]
            w = INTS.get(self.ty(tm[4]).s) if len(tm) > 4 and tm[4] is not None else None
            if w:
                arms = [(int(x) - (1 << w) if int(x) >> (w - 1) else int(x), y) for x, y in arms]
            return self.switch(st, v, arms, tm[3])
        if k == "assert":
            cond = self.operand(fr, st, tm[1])
            ok = cond if tm[2] else NOT(cond)
            bad = AND(st.g, NOT(ok))
            if bad is not FALSE:
                ops = [self.operand(fr, st, o) for o in tm[4]] if len(tm) > 4 else []
                self.panics.append(Site(bad, "assert:" + str(tm[3]), fr.inst["name"], span, ops, [x[1] for x in self.stack]))
            if self.opts.get("assume_asserts", True) and "verflow" in str(tm[3]):
                return [(tm[5], st)]
            return [(tm[5], St(AND(st.g, ok), st.m))]
        if k == "call":
            return self.do_call(fr, st, tm, span)
        return []

    def switch(self, st, v, arms, other):
        v = restrict(v, st.g) if isinstance(v, N) else v
        if not isinstance(v, N):
            v = enc(v)
        out = []
        isb = v is TRUE or v is FALSE or any(x is TT or x is FF for x in leaves(v))
        rest = TRUE
        for val, tg in arms:
            n = int(val)
            if isb:
                g = v if n == 1 else NOT(v)
            else:
                g = apply(lambda x: eq(x, c(n)), v)
            g = AND(g, rest)
            rest = AND(rest, NOT(g))
            out.append((tg, g))
        if other is not None:
            out.append((other, rest))
        res = []
        for tg, g in out:
            g2 = AND(st.g, g)
            if g2 is not FALSE:
                res.append((tg, St(g2, dict(st.m))))
        return res

    def do_call(self, fr, st, tm, span):
        cal, args, dest, target = tm[1], tm[2], tm[3], tm[4]
        av = [self.operand(fr, st, a) for a in args]
        old = self.cur
        self.cur = (fr, span, st)
        try:
            if "inst" in cal and cal.get("name") in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call") and len(av) == 2 and isinstance(av[1], Agg):
                ins = self.I.get(cal["inst"])
                env = [av[0]] if ins and ins.get("body") and ins["body"]["argc"] and self.raw[self.strip_ref(ins["body"]["locals"][1])]["k"] == "closure" else []
                fv = self.deref(st, av[0]) if isinstance(av[0], N) else av[0]
                if not (ins and ins.get("body")) and isinstance(fv, Agg) and fv.inst is not None:
                    v, s2 = self.call_closure(fv, list(av[1].f.values()), st)
                else:
                    v, s2 = self.call_inst(cal["inst"], env + list(av[1].f.values()), st, span)
            elif "inst" in cal:
                v, s2 = self.call_inst(cal["inst"], av, st, span)
            elif "indirect" in cal:
                v, s2 = self.call_closure(self.operand(fr, st, cal["indirect"]) if isinstance(cal["indirect"], list) else unk("indirect"), av, st)
            else:
                m = self.M.lookup(self, cal.get("name", "?"), cal)
                if m is not None:
                    v, s2 = self.model_call(m, dict(cal, name=cal.get("name", "?")), av, st, span)
                else:
                    v, s2 = self.unknown_call(cal.get("name", "?"), av, st, self.ty(self.place_type(fr, dest))), st
        finally:
            self.cur = old
        if s2 is None or s2.g is FALSE or target is None:
            if target is None and s2 is not None and s2.g is not FALSE and not self.diverge_recorded(cal):
                self.panics.append(Site(s2.g, "diverging call:" + cal.get("name", "?"), fr.inst["name"], span, av, [x[1] for x in self.stack]))
            return []
        if isinstance(v, N):
            dt = self.ty(self.place_type(fr, dest))
            if v.atom is None and v.leaf.ty is None and v.leaf.op not in ("c", "ptr"):
                v.leaf.ty = dt
            if dt.k == "bool":
                v = self.M.as_bool(v)
        self.write(fr, s2, dest, v)
        return [(target, s2)]

    def diverge_recorded(self, cal):
        return False

    def panic(self, st, g, kind, info=()):
        """records that st.g & g panics; returns the surviving guard"""
        bad = AND(st.g, g)
        if bad is not FALSE:
            fr, span = (self.cur[0], self.cur[1]) if self.cur else (None, "?")
            self.panics.append(Site(bad, kind, fr.inst["name"] if fr else "?", span, list(info), [x[1] for x in self.stack]))
        return AND(st.g, NOT(g))

    def event(self, st, kind, *info):
        fr, span = (self.cur[0], self.cur[1]) if self.cur else (None, "?")
        self.events.append(Site(st.g, kind, fr.inst["name"] if fr else "?", span, list(info), [x[1] for x in self.stack]))

    # ---------------------------------------------------------- loops
    def loop(self, fr, header, st):
        from . import loops

        def run(s):
            backs, exits = self.region(fr, header, s, header)
            return backs, exits
        return loops.run_loop(self, run, st, fr, header)
