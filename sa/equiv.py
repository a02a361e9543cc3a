"""Equality of what a function of /repo denotes with what its reference definition denotes."""
import time
from . import build, run
from .vals import *
from .term import *
from .eng import Unsupported
from .compare import compare, Report
from .bounds import BOUNDARIES

INLINE = {"get_region_codes_for_country_calling_code", "get_region_code_for_number_from_region_list", "normalize_helper", "prefix_number_with_country_calling_code"}


def spec():
    return run.load(build.spec_dump())


def impl():
    return run.load(build.dump())


def has(dump, name):
    try:
        return run.find(dump, name)
    except KeyError:
        return None


def okpart(v):
    """the payload of a result whose error the definitions do not have"""
    if isinstance(v, Enum) and v.ty is not None and v.ty.name == "Result":
        return v.p.get("Ok", {}).get("0", v)
    return v


def is_result(v):
    return isinstance(v, Enum) and v.ty is not None and v.ty.name == "Result"


def boundary_names(skip=(), di=None, ds=None):
    """functions both sides have, with as many parameters"""
    out = {}
    for n in BOUNDARIES:
        if n in skip or n in INLINE:
            continue
        out[n] = None
    return out


def check(name, skip=(), verbose=False, di=None, ds=None):
    """-> (Report, engines) for one function"""
    di, ds = di or impl(), ds or spec()
    bs = boundary_names(set(skip) | {name.split("::")[-1].replace("I:", "")})
    e1, v1, s1, o1 = run.evaluate(di, name, dict(bs))
    e2, v2, s2, o2 = run.evaluate(ds, name, dict(bs))
    rep = Report()
    if v1 is UNDEF or v2 is UNDEF:
        rep.undecided.append(("", "no value: %s %s" % (v1, v2)))
        return rep, e1, e2
    if is_result(v1) and not is_result(v2):
        v1 = okpart(v1)
    pre = TRUE
    rep = compare(v1, v2, pre, "result")
    for k in o2:
        if k in o1:
            compare(o1[k], o2[k], pre, "out:" + k, rep)
    return rep, e1, e2, v1, v2


def main():
    import sys, traceback
    names = sys.argv[1:]
    for n in names:
        t0 = time.time()
        try:
            r = check(n)
        except Exception as e:
            print(n, "ERROR", type(e).__name__, str(e)[:200])
            if len(names) == 1:
                traceback.print_exc()
            continue
        rep, e1, e2 = r[:3]
        print("%-55s eq %d/%d undecided %d bad %d  %.1fs" % (n, rep.equal, rep.checked, len(rep.undecided), len(rep.bad), time.time() - t0))
        lim = 1500 if len(names) == 1 else 260
        for u in rep.undecided[:3]:
            print("   undecided", str(u)[:lim])
        for p, w, la, lb in rep.bad[:3]:
            print("   BAD", p, "| when", str([(a, v) for a, v in w])[:lim], "| impl", repr(la)[:lim], "| ref", repr(lb)[:lim])
        if len(names) == 1:
            print("notes impl", e1.notes[:10], "spec", e2.notes[:10])


if __name__ == "__main__":
    main()
