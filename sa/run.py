"""Symbolic inputs and evaluation of one function of a dump."""
import json, os, re
from . import build, tables
from .vals import *
from .eng import Engine, St
from . import models as M

_dumps = {}


def load(path=None):
    path = path or build.dump()
    if path not in _dumps:
        with open(path) as f:
            _dumps[path] = json.load(f)
    return _dumps[path]


def find(dump, name):
    """instance key of a function by the tail of its name"""
    meth = {"I:": ("PhoneNumberUtilInternal", "PhoneNumberUtilInternal>"), "A:": ("PhoneNumberUtil", "PhoneNumberUtil>")}.get(name[:2])
    tail = name[2:] if meth else name
    c = []
    for k, i in dump["instances"].items():
        if not i.get("body") or not i.get("is_fn", True):
            continue
        n = re.sub(r"::<[^<>]*(<[^<>]*(<[^<>]*>)?[^<>]*>[^<>]*)*>$", "", i["name"])
        if not n.endswith("::" + tail) and n != tail:
            continue
        own = n[:-len(tail)]
        if meth and re.findall(r"\w+", own)[-1:] != [meth[0]]:
            continue
        c.append((k, i))
    if not c:
        raise KeyError(name)
    c.sort(key=lambda x: len(x[1]["name"]))
    return c[0][0]


def sym(eng, ti, name, st):
    """a symbolic argument of MIR type ti"""
    x = eng.raw[ti]
    if x["k"] == "ref" and x["mut"]:
        cell = (-1, name)
        inner = x["t"]
        ty = eng.ty(inner)
        if ty.k == "adt" and ty.name in M.SELF_TYPES:
            st.m[cell] = self_value(eng, inner, name)
        else:
            st.m[cell] = opaque(t("arg", name, ty=ty), ty)
        return leaf(t("ptr", -1, name, ()))
    ty = eng.ty(ti)
    if ty.k == "adt" and ty.name in M.SELF_TYPES:
        return self_value(eng, eng.strip_ref(ti), name)
    return opaque(t("arg", name, ty=ty), ty)


def self_value(eng, ti, name):
    ty = ti if isinstance(ti, Ty) else eng.ty(ti)
    if ty.name == "PhoneNumberRegExpsAndMappings":
        return regexps(eng)
    lay = fields_of(ty)
    f = {}
    tys = [ft.s for ft in lay.values()]
    for n, ft in lay.items():
        if ft.name in ("PhoneNumberUtilInternal",):
            f[n] = self_value(eng, ft, name)
            continue
        # a private field is known by its type where that is unique
        n2 = "<%s>" % ft.s if tys.count(ft.s) == 1 else n
        if ft.name == "PhoneNumberRegExpsAndMappings":
            f[n] = regexps(eng)
        elif ft.name == "Tables":
            f[n] = Agg(ft, tables.oracle())
        else:
            f[n] = opaque(t("arg", "self." + n2, ty=ft), ft)
    return Agg(ty, f)


_rx = {}


def regexps(eng):
    """PhoneNumberRegExpsAndMappings, evaluated from its constructor"""
    k = id(eng.d)
    if k not in _rx:
        key = None
        for kk, i in eng.I.items():
            if i["name"].endswith("PhoneNumberRegExpsAndMappings::new") and i.get("body"):
                key = kk
        if key is None:
            raise KeyError("PhoneNumberRegExpsAndMappings::new")
        e2 = Engine(eng.d, {})
        e2.opts = {"assume_asserts": True}
        v, s = e2.call_inst(key, [], St(TRUE, {}))
        _rx[k] = (v, e2)
    return _rx[k][0]


def evaluate(dump, name, boundaries=None, opts=None, names=None, args=None, pre=None):
    """-> (engine, value, final state, {&mut arg name: final value})"""
    eng = Engine(dump, boundaries or {})
    eng.opts.update(opts or {})
    key = name if name in dump["instances"] else find(dump, name)
    body = dump["instances"][key]["body"]
    tag = name.split("::")[-1].split(":")[-1]
    st = St(pre if pre is not None else TRUE, {})
    av = []
    for i in range(body["argc"]):
        nm = (names or {}).get(i, "%s.%d" % (tag, i))
        if args and i in args:
            av.append(args[i](eng, st, body["locals"][i + 1]))
        else:
            av.append(sym(eng, body["locals"][i + 1], nm, st))
    v, s = eng.call_inst(key, av, st)
    outs = {}
    if s is not None:
        for i in range(body["argc"]):
            x = eng.raw[body["locals"][i + 1]]
            if x["k"] == "ref" and x["mut"]:
                nm = (names or {}).get(i, "%s.%d" % (tag, i))
                outs[nm] = s.m.get((-1, nm), UNDEF)
    return eng, v, s, outs


if __name__ == "__main__":
    import sys, time
    d = load()
    bs = {}
    if len(sys.argv) > 2:
        from .bounds import BOUNDARIES
        bs = {k: None for k in BOUNDARIES if k != sys.argv[1]}
    t0 = time.time()
    eng, v, s, outs = evaluate(d, sys.argv[1], bs)
    print("value", repr(v)[:3000])
    for k, o in outs.items():
        print("out", k, repr(o)[:2000])
    print("guard", repr(s.g)[:600] if s else None)
    for p in eng.panics[:20]:
        print("panic", p.kind, p.fn.split("::")[-1], p.span, repr(p.g)[:200])
    for n in eng.notes[:20]:
        print("note", n)
    print("inlined", sorted({short(eng.I[k]["name"]) for k in eng.inlined}))
    print("time %.2f" % (time.time() - t0))
