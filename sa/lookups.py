"""C23: the tables that lookups go by, and the operations that list them."""
from . import models, oblig, run
from .compare import Report, compare, compare_nodes
from .eng import Engine, St, Unsupported
from .extra import span, witness
from .strs import *
from .term import *
from .vals import *


def drained(eng, st, v):
    """iterators replaced by the list of what they give"""
    if isinstance(v, IterV):
        if not v.stages and not v.rev and v.src[0] == "seq":
            return v.src[1]
        return models.consume(eng, st, v, "list", None, ListV([]))
    if isinstance(v, Enum):
        return Enum(v.ty, v.d, {vn: {f: drained(eng, St(st.g, dict(st.m)), x) for f, x in p.items()} for vn, p in v.p.items()})
    return v


def sorted_(v):
    """in no particular order"""
    n = enc(v)
    return apply(lambda x: leaf(x if x.op == "sort" else t("sort", x)), n)


def maps_of(p):
    """-> (label -> value) for /repo and for the definition"""
    ki, ks = run.find(p.di, "I:new_for_metadata"), run.find(p.ds, "maps_of")
    nm = {0: "all"}
    e1, v1, s1, _ = run.evaluate(p.di, ki, {}, names=nm)
    e2, v2, s2, _ = run.evaluate(p.ds, ks, {}, names=nm)
    byty = {}
    lay = fields_of(v1.ty)
    for f, x in v1.f.items():
        byty.setdefault(lay[f].s, []).append((f, x))
    lay2 = fields_of(v2.ty)
    return ki, [(f, lay2[f].s, x, byty.get(lay2[f].s, [])) for f, x in v2.f.items()]


WHAT = {"by_code": "the regions of each calling code", "nanpa": "the set of NANPA regions", "by_region": "the metadata by region",
        "non_geographical": "the metadata by non-geographical calling code"}


def c23_maps(o):
    p = oblig.program()
    try:
        k, rows = maps_of(p)
    except (KeyError, Unsupported, RecursionError, TooBig, AttributeError) as x:
        o.notes.append("undecided: the constructor of the lookup tables: %s %s" % (type(x).__name__, str(x)[:100]))
        return
    done = 0
    for f, ty, ref, cand in rows:
        if len(cand) != 1:
            o.notes.append("undecided: %s: no single field of type %s" % (WHAT[f], ty))
            continue
        rep = Report()
        compare_nodes(enc(cand[0][1]), enc(ref), TRUE, f, rep)
        done += 1
        if rep.bad:
            o.add("C23:table " + f, span(p, k), "new_for_metadata: %s (field %s) is not what the metadata says" % (WHAT[f], cand[0][0]), witness(rep))
        for u in rep.undecided[:1]:
            o.notes.append("undecided: table %s: %s" % (f, str(u)[:200]))
    o.programs += 1
    o.cov["tables_compared"] = done


# operation of /repo, definition, whether the order matters
LISTS = [("A:get_supported_regions", "supported_regions", False), ("A:get_region_codes_for_country_code", "regions_of_code", True),
         ("I:get_supported_regions", "supported_regions", False), ("I:get_region_codes_for_country_calling_code", "regions_of_code", True),
         ("I:get_supported_calling_codes", "supported_codes", False), ("I:get_supported_global_network_calling_codes", "supported_global_codes", False)]


def c23_lists(o):
    p = oblig.program()
    n = 0
    for name, ref, order in LISTS:
        try:
            ki = run.find(p.di, name)
        except KeyError:
            o.notes.append("no counterpart in /repo: " + name)
            continue
        try:
            nm = {0: "self", 1: "code"}
            e1, v1, s1, _ = run.evaluate(p.di, ki, {}, names=nm)
            e2, v2, s2, _ = run.evaluate(p.ds, run.find(p.ds, ref), {}, names=nm)
            a, b = drained(e1, s1, v1), drained(e2, s2, v2)
            if not order:
                a, b = sorted_(a), sorted_(b)
            rep = compare(a, b, TRUE, "result")
        except (Unsupported, RecursionError, TooBig, AttributeError, KeyError) as x:
            o.notes.append("undecided: %s: %s %s" % (name, type(x).__name__, str(x)[:100]))
            continue
        n += 1
        if rep.bad:
            o.add("C23:" + name, span(p, ki), "%s does not list what it should" % name.split(":")[1], witness(rep))
        for u in rep.undecided[:1]:
            o.notes.append("undecided: %s: %s" % (name, str(u)[:200]))
    o.programs += n
    o.cov["listings_compared"] = n
