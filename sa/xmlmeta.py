"""C26: the territories PhoneNumberMetadata.xml describes, worked out with the builder's rules (an independent implementation of the
inheritance and default rules of the metadata format), against the ones decoded from the embedded bytes."""
import os, re
import xml.etree.ElementTree as ET
from . import build, meta

TYPES = [("fixed_line", "fixedLine"), ("mobile", "mobile"), ("toll_free", "tollFree"), ("premium_rate", "premiumRate"),
         ("shared_cost", "sharedCost"), ("personal_number", "personalNumber"), ("voip", "voip"), ("pager", "pager"), ("uan", "uan"),
         ("voicemail", "voicemail"), ("no_international_dialling", "noInternationalDialling")]


def squeeze(s):
    return re.sub(r"\s", "", s)


def lengths_of(s):
    out = set()
    for part in s.split(","):
        m = re.fullmatch(r"\[(\d+)-(\d+)\]", part)
        if m:
            out |= set(range(int(m.group(1)), int(m.group(2)) + 1))
        else:
            out.add(int(part))
    return out


def lengths(el):
    full, local = set(), set()
    for p in el.iter("possibleLengths"):
        full |= lengths_of(p.get("national"))
        if p.get("localOnly") is not None:
            local |= lengths_of(p.get("localOnly"))
    return full, local


def describe(t, tag, parent):
    els = list(t.iter(tag))
    if not els:
        return {"possible_length": [-1], "possible_length_local_only": []}
    el = els[0]
    d = {"possible_length": [], "possible_length_local_only": []}
    if parent is not None:
        full, local = lengths(el)
        if sorted(full) != parent["possible_length"]:
            d["possible_length"] = sorted(full)
        d["possible_length_local_only"] = sorted(local - full)
    for tag2, name, ws in (("nationalNumberPattern", "national_number_pattern", True), ("exampleNumber", "example_number", False)):
        x = el.find(".//" + tag2)
        if x is not None:
            d[name] = squeeze(x.text) if ws else x.text
    return d


def rule(s, np, np_first):
    for old, new in ([("$NP", np), ("$FG", "$1")] if np_first else [("$FG", "$1"), ("$NP", np)]):
        s = s.replace(old, new, 1)
    return s


def territory(t):
    np = t.get("nationalPrefix", "")
    m = {"id": t.get("id", ""), "number_format": [], "intl_number_format": []}
    if t.get("countryCode") is not None:
        m["country_code"] = int(t.get("countryCode"))
    for a, f in (("leadingDigits", "leading_digits"), ("internationalPrefix", "international_prefix"),
                 ("preferredInternationalPrefix", "preferred_international_prefix"), ("preferredExtnPrefix", "preferred_extn_prefix")):
        if t.get(a) is not None:
            m[f] = t.get(a)
    if t.get("nationalPrefixForParsing") is not None:
        m["national_prefix_for_parsing"] = squeeze(t.get("nationalPrefixForParsing"))
        if t.get("nationalPrefixTransformRule") is not None:
            m["national_prefix_transform_rule"] = t.get("nationalPrefixTransformRule")
    if np:
        m["national_prefix"] = np
        m.setdefault("national_prefix_for_parsing", np)
    for a, f in (("mainCountryForCode", "main_country_for_code"), ("mobileNumberPortableRegion", "mobile_number_portable_region")):
        if t.get(a) is not None:
            m[f] = True
    # formats
    t_rule = rule(t.get("nationalPrefixFormattingRule", ""), np, True)
    t_opt = t.get("nationalPrefixOptionalWhenFormatting") is not None
    t_cc = rule(t.get("carrierCodeFormattingRule", ""), np, False)
    explicit, intl = False, []
    for nf in t.iter("numberFormat"):
        f = {"pattern": nf.get("pattern"), "leading_digits_pattern": [squeeze(x.text) for x in nf.iter("leadingDigits")]}
        r = rule(nf.get("nationalPrefixFormattingRule"), np, True) if nf.get("nationalPrefixFormattingRule") is not None else t_rule
        if r or nf.get("nationalPrefixFormattingRule") is not None:
            f["national_prefix_formatting_rule"] = r
        o = nf.get("nationalPrefixOptionalWhenFormatting")
        if o is not None:
            f["national_prefix_optional_when_formatting"] = o.lower() == "true"
        elif t_opt:
            f["national_prefix_optional_when_formatting"] = True
        c = rule(nf.get("carrierCodeFormattingRule"), np, False) if nf.get("carrierCodeFormattingRule") is not None else t_cc
        if c or nf.get("carrierCodeFormattingRule") is not None:
            f["domestic_carrier_code_formatting_rule"] = c
        f["format"] = next(nf.iter("format")).text
        m["number_format"].append(f)
        i = list(nf.iter("intlFormat"))
        if not i:
            intl.append(f)
        else:
            explicit = True
            if i[0].text != "NA":
                intl.append({"pattern": f["pattern"], "leading_digits_pattern": list(f["leading_digits_pattern"]), "format": i[0].text})
    if explicit:
        m["intl_number_format"] = intl
    # descriptions
    g = describe(t, "generalDesc", None)
    full, local = set(), set()
    for el in t:
        if el.tag != "noInternationalDialling":
            a, b = lengths(el)
            full |= a
            local |= b
    g["possible_length"], g["possible_length_local_only"] = sorted(full), sorted(local - full)
    m["general_desc"] = g
    for f, tag in TYPES:
        m[f] = describe(t, tag, g)
    if m["mobile"].get("national_number_pattern", "") == m["fixed_line"].get("national_number_pattern", ""):
        m["same_mobile_and_fixed_line_pattern"] = True
    return m


def expected():
    root = ET.parse(os.path.join(build.REPO, "resources/PhoneNumberMetadata.xml")).getroot()
    return [territory(t) for t in root.iter("territory")]


def with_defaults(x, ps, msg):
    out = {}
    for name, lab, ty, d in ps[msg].values():
        v = x.get(name)
        if ty in ps:
            v = [with_defaults(y, ps, ty) for y in v or ()] if lab == "repeated" else (with_defaults(v, ps, ty) if v is not None else None)
        elif lab == "repeated":
            v = list(v or ())
        elif v is None:
            v = {"string": "", "bool": d == "true"}.get(ty, 0)
        out[name] = v
    extra = set(x) - set(out)
    return out, extra


def diff(a, b, at=""):
    """the differences, as (place, embedded, source)"""
    if isinstance(a, tuple):
        a = a[0]
    if isinstance(b, tuple):
        b = b[0]
    if isinstance(a, dict) and isinstance(b, dict):
        for k in a.keys() | b.keys():
            yield from diff(a.get(k), b.get(k), at + "." + k)
    elif isinstance(a, list) and isinstance(b, list) and (not a or not b or isinstance(a[0], (dict, tuple))) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            yield from diff(x, y, "%s[%d]" % (at, i))
    elif a != b:
        yield at, a, b


def leaves(x):
    if isinstance(x, tuple):
        x = x[0]
    if isinstance(x, dict):
        return sum(leaves(v) for v in x.values())
    if isinstance(x, list) and x and isinstance(x[0], tuple):
        return sum(map(leaves, x))
    return 1


def c26(o):
    try:
        have = meta.metadata()
    except (ValueError, OSError) as e:
        o.notes.append("undecided: the embedded bytes are not an array in the source: %s" % e)
        return
    except meta.Bad as e:
        o.add("C26:decode", "src/generated/metadata/metadata.rs", "the embedded metadata cannot be decoded: %s" % e)
        return
    ps = meta._c["m"][2]
    try:
        want = expected()
    except (OSError, ET.ParseError, AttributeError, TypeError, ValueError, StopIteration) as e:
        o.notes.append("undecided: the XML source is not understood: %s %s" % (type(e).__name__, str(e)[:100]))
        return
    key = lambda m: (m.get("id"), m.get("country_code", 0))
    A, B = {}, {}
    for D, l in ((A, have), (B, want)):
        for m in l:
            D.setdefault(key(m), []).append(m)
    n = fields = 0
    for k in sorted(set(A) | set(B), key=str):
        a, b = A.get(k, []), B.get(k, [])
        if len(a) != len(b):
            o.add("C26:%s(+%s)" % k, "src/generated/metadata/metadata.rs", "territory %s(+%s) appears %d times in the embedded metadata and %d times in the XML source" % (k + (len(a), len(b))))
            continue
        for x, y in zip(a, b):
            n += 1
            y2, extra = with_defaults(y, ps, "PhoneMetadata")
            if extra:
                raise meta.Bad("fields %s not in the proto" % extra)
            x2 = with_defaults(x, ps, "PhoneMetadata")[0]
            fields += leaves(x2)
            for at, p, q in list(diff(x2, y2))[:3]:
                o.add("C26:%s(+%s)%s" % (k + (at,)), "src/generated/metadata/metadata.rs", "%s(+%s)%s is %s in the embedded metadata; the XML source makes it %s" % (k + (at, repr(p)[:120], repr(q)[:120])))
    oa, ob = [key(m) for m in have], [key(m) for m in want]
    if oa != ob and not o.violations:
        i = next(i for i, (p, q) in enumerate(zip(oa, ob)) if p != q)
        # the order decides which region comes first under a shared calling code
        if order(have) != order(want):
            o.add("C26:order", "src/generated/metadata/metadata.rs", "territory %d is %s in the embedded metadata and %s in the XML source: the regions of a shared calling code come in another order" % (i, oa[i], ob[i]))
    o.cov["territories_compared"] = n
    o.cov["fields_compared"] = fields


def order(l):
    by = {}
    for m in l:
        c = by.setdefault(m.get("country_code", 0), [])
        if m.get("main_country_for_code"):
            c.insert(0, m["id"])
        else:
            c.append(m["id"])
    return by


def c26_loader(o):
    """a new PhoneNumberUtil's tables are the ones of the territories decoded from METADATA"""
    from . import loops, lookups, oblig, run
    from .compare import Report, compare_nodes
    from .extra import span, witness
    from .strs import TRUE, enc
    from .term import subterms, t
    from .eng import Unsupported
    p = oblig.program()
    try:
        k = run.find(p.di, "A:new")
        _, v, _, _ = run.evaluate(p.di, k, {})
        _, rows = lookups.maps_of(p)
        inner = next(x for x in v.f.values() if getattr(x, "f", None))
        by = {}
        for f, x in inner.f.items():
            by.setdefault(fields_ty(inner.ty, f), []).append((f, x))
    except (KeyError, Unsupported, RecursionError, AttributeError, StopIteration) as x:
        o.notes.append("undecided: the loader: %s %s" % (type(x).__name__, str(x)[:100]))
        return
    try:
        meta.metadata()
    except (ValueError, OSError, meta.Bad):
        return
    b = meta.rust_bytes(os.path.join(build.REPO, "src/generated/metadata/metadata.rs"), "METADATA")
    want = t("bigconst", len(b), b.hex()[:64])
    n = 0
    for f, ty, ref, _ in rows:
        cand = by.get(ty, [])
        if len(cand) != 1:
            o.notes.append("undecided: the loader: no single field of type %s" % ty)
            continue
        x = enc(cand[0][1])
        srcs = set()
        for z in subterms(x):
            if z.op == "pay" and "parse_from_bytes" in str(call_of(z))[:200]:
                srcs.add(z)
        if len(srcs) != 1:
            o.notes.append("undecided: the loader: table %s is decoded in an unknown way" % f)
            continue
        src = srcs.pop()
        data = call_of(src).args[1]
        data = getattr(data, "leaf", data)
        if data.op == "bigconst" and data is not want:
            o.add("C26:loader", span(p, k), "PhoneNumberUtil::new decodes %d bytes that are not METADATA" % data.args[0])
            continue
        if data.op != "bigconst":
            o.notes.append("undecided: the loader: the bytes decoded are %s" % str(data)[:100])
            continue
        rep = Report()
        compare_nodes(loops.subst(x, {src: t("arg", "all")}), enc(ref), TRUE, f, rep)
        n += 1
        if rep.bad:
            o.add("C26:loaded " + f, span(p, k), "PhoneNumberUtil::new: table %s is not made of the embedded territories" % cand[0][0], witness(rep))
        for u in rep.undecided[:1]:
            o.notes.append("undecided: loaded table %s: %s" % (f, str(u)[:200]))
    o.cov["loaded_tables_compared"] = n


def fields_ty(ty, f):
    from .vals import fields_of
    return fields_of(ty)[f].s


def call_of(z):
    from .term import t
    x = z.args[0]
    x = getattr(x, "leaf", x)
    return x if x is not None and x.op == "unk" else t("none")


def c25_examples(o):
    """C25: every stored example is of its own description"""
    from . import rx
    try:
        md = meta.metadata()
    except (ValueError, OSError) as e:
        o.notes.append("undecided: the embedded bytes are not an array in the source: %s" % e)
        return
    except meta.Bad as e:
        o.add("C25:decode", "src/generated/metadata/metadata.rs", "the embedded metadata cannot be decoded: %s" % e)
        return
    W = "src/generated/metadata/metadata.rs"
    n = 0
    for m in md:
        g = m.get("general_desc") or {}
        for d in meta.DESCS:
            v = m.get(d) or {}
            if "example_number" not in v:
                continue
            e, w = v["example_number"], "%s.%s" % (meta.where(m), d)
            n += 1
            if not e or not all(x in "0123456789" for x in e):
                o.add("C25:%s:digits" % w, "%s %s" % (W, w), "the example %r is not a run of digits" % e)
                continue
            L = v.get("possible_length") or g.get("possible_length") or []
            if d != "general_desc" and len(e) not in L:
                o.add("C25:%s:length" % w, "%s %s" % (W, w), "the example %s has %d digits; its description allows %s" % (e, len(e), L))
            for x, what in ((v, "its own pattern"), (g, "the region's general pattern")):
                p = x.get("national_number_pattern")
                if x is v and not p:
                    o.add("C25:%s:pattern" % w, "%s %s" % (W, w), "the example %s belongs to a description without a pattern" % e)
                if not p:
                    continue
                try:
                    hit = rx.run("^(?:%s)$" % p, e)
                except (rx.RxError, rx.Unsupported) as x_:
                    o.notes.append("pattern not understood at %s: %s" % (w, x_))
                    continue
                if not hit:
                    o.add("C25:%s:%s" % (w, what), "%s %s" % (W, w), "the example %s does not match %s %r" % (e, what, p[:120]))
    o.cov["examples_checked"] = n
