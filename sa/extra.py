"""The deciding rules that are not function-by-function equivalence."""
from . import build, callg, equiv, meta, oblig, run, rx
from .compare import compare, compare_nodes, Report, sat, Weak, Budget
from .strs import *
from .term import *
from .vals import *

PARSE_PAIR = {"parse", "parse_and_keep_raw_input", "parse_helper", "maybe_extract_country_code"}


def span(p, key):
    s = p.di["instances"][key].get("span") or ["?", 0]
    return "%s:%s" % (s[0], s[1])


def witness(rep):
    p, w, la, lb = rep.bad[0]
    return {"at": p, "when": [(repr(a)[:160], b) for a, b in w][:24], "one": repr(la)[:400], "other": repr(lb)[:400]}


# ------------------------------------------------------------------ C05
def c05(o):
    """both parse operations of /repo, expanded down to the functions that see whether raw input is kept"""
    p = oblig.program()
    bs = {b: None for b in p.bounds if b not in PARSE_PAIR}
    nm = {0: "self", 1: "text", 2: "region"}
    ka, kb = p.impl["A:parse"], p.impl["A:parse_and_keep_raw_input"]
    e1, v1, s1, _ = run.evaluate(p.di, ka, dict(bs), names=nm)
    e2, v2, s2, _ = run.evaluate(p.di, kb, dict(bs), names=nm)
    o.programs += 2
    done = 0
    if not (isinstance(v1, Enum) and isinstance(v2, Enum)):
        o.notes.append("parse has no analysable result")
        return
    g = AND(cond_of(v1.d, lambda x: x is c("Ok")), cond_of(v2.d, lambda x: x is c("Ok")))
    items = [("whether it succeeds", v1.d, v2.d, TRUE)]
    ge = AND(cond_of(v1.d, lambda x: x is c("Err")), cond_of(v2.d, lambda x: x is c("Err")))
    items.append(("the error", v1.p["Err"]["0"], v2.p["Err"]["0"], ge))
    r1, r2 = v1.p["Ok"]["0"], v2.p["Ok"]["0"]
    special = ("raw_input", "country_code_source", "preferred_domestic_carrier_code")
    for f in r1.f:
        if f not in special:
            items.append(("field " + f, r1.f[f], r2.f.get(f, UNDEF), g))
    none_ = lambda v: Enum(v.ty, cn("None"), {})
    for f in special:
        if f in r1.f:
            items.append(("plain parse leaves %s empty" % f, enc_d(r1.f[f]), cn("None"), g))
    text = opaque(t("arg", "text", ty=run_str()), run_str())
    ra = r2.f.get("raw_input")
    if ra is not None:
        items.append(("keeping parse records raw input", enc_d(ra), cn("Some"), g))
        items.append(("the raw input recorded", payload_of(ra), text, g))
    src = r2.f.get("country_code_source")
    if src is not None:
        items.append(("keeping parse records the source", enc_d(src), cn("Some"), g))
    for what, a, b, pre in items:
        rep = compare(a, b, pre, what)
        done += rep.checked
        if rep.bad:
            o.add("C05:" + what, span(p, kb), "parse and parse_and_keep_raw_input disagree on %s" % what, witness(rep))
        for u in rep.undecided[:1]:
            o.notes.append("undecided: %s: %s" % (what, str(u)[:200]))
    o.cov["projections_compared"] = len(items)
    o.cov["leaf_comparisons"] = o.cov.get("leaf_comparisons", 0) + done
    o.cov["functions_expanded"] = sorted({short(p.di["instances"][k]["name"]) for k in e2.inlined if p.di["instances"][k]["crate"].startswith("rlib")})
    o.samples.append({"projections": [x[0] for x in items]})


def run_str():
    from .loops import STR
    return STR


def enc_d(v):
    if isinstance(v, Enum):
        return v.d
    return expand(v, v.ty if not isinstance(v, N) else leaves(v)[0].ty).d


def payload_of(v):
    if isinstance(v, Enum):
        return v.p.get("Some", {}).get("0", UNDEFN)
    return payload(v, "Some", "0")


# ------------------------------------------------------------------ C12
META_TYPES = {"PhoneMetadata", "NumberFormat", "PhoneNumberDesc", "PhoneMetadataCollection", "PhoneNumberRegExpsAndMappings", "Regex"}


def metaty(ty):
    if ty is None:
        return False
    if ty.k in ("seq", "mut") and ty.sub is not None and not isinstance(ty.sub, str):
        return metaty(ty.sub)
    s = ty.s
    return any(m in s for m in META_TYPES)


class Prov:
    """where the text of a value comes from: embedded data, or a parameter, or the caller"""

    def __init__(self, template):
        self.template = template
        self.bad, self.params = [], set()

    def node(self, n):
        for x in leaves(n):
            self.term(x)

    def term(self, x):
        op = x.op
        if op in ("c", "undef", "itoa", "len", "lin", "re"):
            for a in x.args:
                if isinstance(a, (N, T)) and op == "re":
                    self.any(a)
            return
        if metaty(x.ty):
            return
        if op == "arg":
            self.params.add(x.args[0])
            return
        if op in ("fld", "pay", "at", "elem", "mget", "first", "last"):
            if self.origin(x):
                return
        if op in ("noexpand", "repfn") and self.template:
            return
        if op == "replace" and self.template and x.args[1] is c("$"):
            return
        if op == "escape" and not self.template:
            return
        if op in ("cat", "join", "slice", "replace", "rerep", "upper", "lower", "trim", "cmap", "lmap", "repeat"):
            for a in x.args:
                if isinstance(a, (N, T)):
                    self.any(a)
            return
        if x.weak:
            self.bad.append(("?", x))
            return
        self.bad.append(("caller", x))

    def any(self, a):
        if isinstance(a, N):
            self.node(a)
        else:
            self.term(a)

    def origin(self, x):
        """is x taken out of embedded metadata?"""
        y = x
        while True:
            if metaty(y.ty):
                return True
            if y.op == "arg" and str(y.args[0]).startswith("self."):
                return True
            if y.op in ("fld", "pay", "at", "mget", "first", "last", "items", "rev") and y.args and isinstance(y.args[0], (N, T)):
                z = y.args[0]
                if isinstance(z, N):
                    ls = leaves(z)
                    if len(ls) != 1:
                        return all(self.origin(l) for l in ls)
                    z = ls[0]
                y = z
                continue
            return False


def c12(o):
    p = oblig.program()
    sites, params, calls = [], {}, []
    und = 0
    for n in p.names:
        own = n.split(":")[-1]
        bs = {b: None for b in p.bounds if n.startswith("A:") or b != own}
        try:
            e, v, s, _ = run.evaluate(p.di, p.impl[n], bs, names=p.argnames(n))
        except Exception as x:
            o.notes.append("not analysed: %s (%s)" % (n, str(x)[:80]))
            continue
        o.programs += 1
        for ev in e.events:
            if ev.kind in ("compile", "template"):
                pr = Prov(ev.kind == "template")
                pr.node(ev.info[0])
                sites.append((n, ev, pr))
                for a in pr.params:
                    params.setdefault((own, a), []).append((n, ev))
            elif ev.kind == "bcall":
                calls.append((n, ev))
    todo, seen = list(params), set()
    reported = set()
    for n, ev, pr in sites:
        for kind, x in pr.bad:
            if kind == "?":
                und += 1
                o.notes.append("undecided: %s in %s at %s takes %s" % (ev.kind, short(ev.fn), ev.span, repr(x)[:100]))
            else:
                k = "C12:%s:%s" % (short(ev.fn), ev.kind)
                if k not in reported:
                    reported.add(k)
                    o.add(k, str(ev.span), "%s in %s uses text that is not embedded data: %s" % ({"compile": "a pattern compiled", "template": "a replacement template"}[ev.kind], short(ev.fn), repr(x)[:160]),
                          {"function": n, "guard": repr(ev.g)[:600]})
    # a parameter used as a pattern has to be embedded data at every call
    while todo:
        fn, a = todo.pop()
        if (fn, a) in seen:
            continue
        seen.add((fn, a))
        if str(a).startswith("self."):
            continue
        idx = int(str(a).rsplit(".", 1)[1]) if "." in str(a) and str(a).rsplit(".", 1)[1].isdigit() else None
        user = params[(fn, a)][0]
        if user[0].startswith("A:"):
            o.add("C12:param:%s" % fn, str(user[1].span), "public operation %s uses its argument as %s" % (fn, user[1].kind), None)
            continue
        for n, ev in calls:
            if ev.info[0] != fn or idx is None or idx not in ev.info[1]:
                continue
            pr = Prov(user[1].kind == "template")
            pr.node(ev.info[2][ev.info[1].index(idx)])
            for kind, x in pr.bad:
                if kind == "?":
                    und += 1
                    continue
                k = "C12:%s->%s" % (n, fn)
                if k not in reported:
                    reported.add(k)
                    o.add(k, str(ev.span), "%s passes text that is not embedded data to %s, which uses it as %s: %s" % (n.split(":")[-1], fn, user[1].kind, repr(x)[:160]), None)
            for b in pr.params:
                q = (n.split(":")[-1], b)
                params.setdefault(q, []).append((n, user[1]))
                if q not in seen:
                    todo.append(q)
    # metadata records handed on must hold embedded text only
    for n, ev in calls:
        for v in ev.info[2]:
            for x in leaves(v):
                if x.op == "mk" and x.ty is not None and x.ty.name in META_TYPES:
                    pr = Prov(False)
                    for f in x.args[2::2]:
                        pass
                    for i in range(2, len(x.args), 2):
                        mk_check(pr, x.args[i + 1])
                    for kind, y in pr.bad:
                        if kind == "caller":
                            k = "C12:mk:%s->%s" % (n, ev.info[0])
                            if k not in reported:
                                reported.add(k)
                                o.add(k, str(ev.span), "%s puts text that is not embedded data into a %s: %s" % (n, x.ty.name, repr(y)[:160]), None)
    o.cov.update(pattern_and_template_sites=len(sites), sites=sorted({"%s %s" % (ev.kind, ev.span) for n, ev, pr in sites}), undecided_sites=und,
                 calls_followed=len(calls), pattern_parameters=sorted("%s(%s)" % s for s in seen))


def mk_check(pr, v):
    if isinstance(v, N):
        for x in leaves(v):
            mk_check(pr, x)
    elif isinstance(v, T):
        if v.op == "mk":
            for i in range(2, len(v.args), 2):
                mk_check(pr, v.args[i + 1])
        elif v.ty is not None and v.ty.k in ("str",) or v.op in ("cat", "arg", "b:"):
            pr.term(v)


# ------------------------------------------------------------------ C27
STATIC_SITES = None


def static_patterns(p):
    """patterns built in: every constant compiled on the way to or inside an operation"""
    out = {}
    run.regexps(run.Engine(p.di, {}))
    for v, e in run._rx.values():
        for ev in e.events:
            if ev.kind == "compile":
                for x in leaves(ev.info[0]):
                    if x.op == "c":
                        out.setdefault(x.args[0], str(ev.span))
                    else:
                        out.setdefault(None, str(ev.span))
    return out


def refs(tmpl):
    """group references of a replacement template as regex reads them -> [(name, end)] or error text"""
    out, i = [], 0
    while i < len(tmpl):
        if tmpl[i] != "$":
            i += 1
            continue
        if tmpl[i + 1:i + 2] == "$":
            i += 2
            continue
        if tmpl[i + 1:i + 2] == "{":
            j = tmpl.find("}", i)
            if j < 0:
                i += 1
                continue
            out.append(tmpl[i + 2:j])
            i = j + 1
            continue
        j = i + 1
        while j < len(tmpl) and (tmpl[j].isascii() and (tmpl[j].isalnum() or tmpl[j] == "_")):
            j += 1
        if j == i + 1:
            out.append("")
            i += 1
            continue
        out.append(tmpl[i + 1:j])
        i = j
    return out


def ngroups(pat):
    return rx.parse(pat)[1]


def bad_template(tmpl, n):
    for r in refs(tmpl):
        if not r.isdigit():
            return "'$%s' in '%s' names no group" % (r, tmpl)
        if int(r) > n or int(r) < 1:
            return "'$%s' in '%s' is beyond the pattern's %d groups" % (r, tmpl, n)
    return None


def c27(o):
    p = oblig.program()
    try:
        md = meta.metadata()
    except (ValueError, OSError) as e:
        o.notes.append("undecided: the embedded bytes are not an array in the source: %s" % e)
        return
    except meta.Bad as e:
        o.add("C27:decode", "src/generated/metadata/metadata.rs", "the embedded metadata cannot be decoded: %s" % e)
        return
    n = {"patterns": 0, "templates": 0, "length_lists": 0}
    W = "src/generated/metadata/metadata.rs"

    def bad(where, what):
        o.add("C27:" + where, W + " " + where, what)
    ok = {}

    def comp(where, pat):
        n["patterns"] += 1
        if pat not in ok:
            try:
                ok[pat] = ngroups(pat)
            except rx.RxError as e:
                ok[pat] = None
                bad(where, "pattern %r does not compile: %s" % (pat[:80], e))
            except rx.Unsupported as e:
                ok[pat] = -1
                o.notes.append("pattern not understood at %s: %s" % (where, e))
        return ok[pat]
    for pat, where in static_patterns(p).items():
        if pat is None:
            o.notes.append("a built-in pattern is not a constant at " + where)
            continue
        n["patterns"] += 1
        try:
            rx.parse(pat)
        except rx.RxError as e:
            o.add("C27:static:" + where.split(":")[0] + ":" + pat[:40], where, "built-in pattern %r does not compile: %s" % (pat[:80], e))
        except rx.Unsupported as e:
            o.notes.append("built-in pattern not understood at %s: %s" % (where, e))
    codes = {}
    ids = {}
    for m in md:
        w = meta.where(m)
        i, cc = m.get("id"), m.get("country_code")
        if not i:
            bad(w, "territory without id")
        if not isinstance(cc, int) or not 0 < cc < 1000:
            bad(w, "calling code %r is not a positive number of at most three digits" % cc)
        if (i if i != "001" else (i, cc)) in ids:
            bad(w, "region listed twice")
        ids[i if i != "001" else (i, cc)] = 1
        codes.setdefault(cc, []).append(m)
        for where, kind, pat in meta.patterns(m):
            g = comp(where, pat)
            if kind == "desc" and g is not None:
                comp(where, "^(?:%s)$" % pat)
        # templates
        for lst in ("number_format", "intl_number_format"):
            for k, f in enumerate(m.get(lst, ())):
                where = "%s.%s[%d]" % (w, lst, k)
                g = ok.get(f.get("pattern"))
                if not f.get("pattern") or not f.get("format"):
                    bad(where, "rule without pattern or format")
                    continue
                if g is None or g < 0:
                    continue
                fmt = f["format"]
                outs = [(fmt, "format")]
                first = _first_group(fmt)
                npr = f.get("national_prefix_formatting_rule")
                ccr = f.get("domestic_carrier_code_formatting_rule")
                for rule, what in ((npr, "national prefix rule"), (ccr, "carrier rule")):
                    if not rule:
                        continue
                    n["templates"] += 1
                    r2 = rule.replace("$CC", "0", 1)
                    if what == "carrier rule" and "$CC" not in rule:
                        bad(where, "carrier rule %r has no place for the carrier code" % rule)
                    b = bad_template(r2, 1)
                    if b:
                        bad(where, "%s: %s" % (what, b))
                        continue
                    if first is None:
                        continue
                    i0, j0 = first
                    outs.append((fmt[:i0] + r2.replace("$1", fmt[i0:j0]) + fmt[j0:], what + " applied"))
                for tm, what in outs:
                    n["templates"] += 1
                    if fmt == "NA":
                        continue
                    b = bad_template(tm, g)
                    if b:
                        bad(where, "%s: %s" % (what, b))
                    elif not refs(tm):
                        bad(where, "%s %r shows no digits of the number" % (what, tm))
        tr = m.get("national_prefix_transform_rule")
        npp = m.get("national_prefix_for_parsing")
        if tr:
            n["templates"] += 1
            g = ok.get(npp) if npp else 0
            if g is not None and g >= 0:
                b = bad_template(tr, g)
                if b:
                    bad(w + ".national_prefix_transform_rule", b)
        # lengths
        gen = m.get("general_desc", {})
        gl, go = gen.get("possible_length", []), gen.get("possible_length_local_only", [])
        for d in meta.DESCS:
            v = m.get(d)
            if v is None:
                continue
            for f in ("possible_length", "possible_length_local_only"):
                l = v.get(f, [])
                n["length_lists"] += 1
                if l != sorted(set(l)):
                    bad("%s.%s.%s" % (w, d, f), "lengths %s are not ascending without duplicates" % l)
                if any(x < 2 or x > 17 for x in l) and l != [-1]:
                    bad("%s.%s.%s" % (w, d, f), "length outside 2 to 17 in %s" % l)
            if d in ("general_desc", "no_international_dialling") or v.get("possible_length") == [-1]:
                continue
            for x in v.get("possible_length", []):
                if x not in gl:
                    bad("%s.%s" % (w, d), "length %d is missing from the region's own list" % x)
            for x in v.get("possible_length_local_only", []):
                if x not in gl and x not in go:
                    bad("%s.%s" % (w, d), "local-only length %d is missing from the region's own lists" % x)
        if set(gl) & set(go):
            bad(w + ".general_desc", "a length is both possible and local-only")
        if not gl:
            bad(w + ".general_desc", "no possible length")
    for cc, ms in codes.items():
        mains = [m for m in ms if m.get("main_country_for_code")]
        if len(ms) > 1 and len(mains) != 1:
            bad("+%s" % cc, "%d of %d regions are marked as leading" % (len(mains), len(ms)))
    o.cov.update(territories=len(md), calling_codes=len(codes), **n)
    o.programs += n["patterns"]
    o.samples.append({"territory": meta.where(md[0]), "patterns": [x[2][:60] for x in list(meta.patterns(md[0]))[:4]]})


def _first_group(fmt):
    import re
    m = re.search(r"\$\d", fmt)
    return (m.start(), m.end()) if m else None


# ------------------------------------------------------------------ C28
RAWFNS = {"full_match", "matches_start", "find_start", "captures_start", "match_national_number"}


def c28(o):
    p = oblig.program()
    d = p.di
    # 1. what the questions mean
    from .loops import STR, BOOL

    def body(suffix):
        out = [k for k, i in d["instances"].items() if i.get("body") and i["crate"].startswith("rlib") and i.get("is_fn", True) and short(i["name"]) == suffix]
        return out
    exact = {}
    for fn in ("full_match", "matches_start", "find_start", "captures_start", "match_national_number"):
        ks = body(fn)
        if not ks:
            o.notes.append("no function %s" % fn)
            continue
        for k in ks:
            opts = {"raw": RAWFNS}
            try:
                eng, v, s, _ = run.evaluate(d, k, {}, opts, names={0: "re", 1: "text", 2: "desc", 3: "prefix"} if fn == "match_national_number" else {0: "re", 1: "text"})
            except Exception as x:
                o.notes.append("not analysed: %s (%s)" % (fn, str(x)[:100]))
                continue
            o.programs += 1
            P, S = t("patof", t("arg", "re", ty=run.M.REGEX)), t("arg", "text", ty=STR)
            for a in eng_args(eng, k):
                if a.ty is not None and a.args[0] == "re":
                    P = t("patof", a)
                if a.args[0] == "text":
                    S = a
            m = t("m", P, S, "find", ty=run.M.MATCH)
            found = var(t("found", P, S))
            start = AND(found, eq(run.M.ms(m), c(0)))
            if fn == "match_national_number":
                start = None
            want = None
            if fn == "full_match":
                first = AND(start, eq(run.M.me(m), slen(S)))
                anch = var(t("found", cat(c("^(?:"), P, c(")$")), S))
                for w, name in ((first, "leftmost"), (anch, "anchored")):
                    rep = compare_nodes_(enc(v), w, fn)
                    if not rep.bad and not rep.undecided:
                        exact[fn] = name
                        break
                else:
                    decide(o, p, k, fn, compare_nodes_(enc(v), first, fn), "text fits a pattern exactly when a match covers it from start to end")
                continue
            if fn == "match_national_number":
                desc = None
                for a in eng_args(eng, k):
                    if a.args[0] == "desc":
                        desc = a
                    if a.args[0] == "prefix":
                        pre = a
                pat = run.M.mkpay_opt_str(desc, "national_number_pattern")
                prev = opaque(pre, BOOL)
                w = apply(lambda q: AND(nonempty(q), ite(prev, begins(q, S), var(t("found", cat(c("^(?:"), q, c(")$")), S)))), pat)
                rep = compare_nodes_(enc(v), w, fn)
                if not rep.bad and not rep.undecided:
                    exact[fn] = "anchored"
                else:
                    w2 = apply(lambda q: AND(nonempty(q), ite(prev, begins(q, S), AND(begins(q, S), eq(run.M.me(t("m", q, S, "find", ty=run.M.MATCH)), slen(S))))), pat)
                    rep2 = compare_nodes_(enc(v), w2, fn)
                    if not rep2.bad and not rep2.undecided:
                        exact[fn] = "leftmost"
                    else:
                        decide(o, p, k, fn, rep, "a number fits a description exactly when its pattern is not empty and some match covers the whole number")
                continue
            st = enc_d(v) if isinstance(v, Enum) else None
            g = cond_of(v.d, lambda x: x is c("Some")) if isinstance(v, Enum) else enc(v)
            decide(o, p, k, fn, compare_nodes_(g, start, fn), "a prefix fits exactly when a match begins at the start")
    o.cov["meaning_of_matching"] = exact
    # 2. a leftmost-first search that stops short of a longer match only matters for patterns that have one
    gaps = 0
    if exact.get("match_national_number") == "leftmost":
        for m in meta.metadata():
            for where, kind, pat in meta.patterns(m):
                if kind == "desc":
                    gaps += gap(o, where, pat, "the description is matched by the leftmost match only")
    if exact.get("full_match") != "anchored":
        for m in meta.metadata():
            for where, kind, pat in meta.patterns(m):
                if kind == "format":
                    gaps += gap(o, where, pat, "the rule's pattern is matched by the leftmost match only")
        used = set()
        for n in p.names:
            own = n.split(":")[-1]
            try:
                e = run.evaluate(d, p.impl[n], {b: None for b in p.bounds if n.startswith("A:") or b != own}, names=p.argnames(n))[0]
            except Exception:
                continue
            for ev in e.events:
                if ev.kind == "fullmatch":
                    for x in leaves(ev.info[0]):
                        if x.op == "c" and x.args[0] not in used:
                            used.add(x.args[0])
                            gaps += gap(o, "%s (%s)" % (ev.span, short(ev.fn)), x.args[0], "the pattern is matched by the leftmost match only")
        o.cov["builtin_patterns_full_matched"] = len(used)
    o.cov["patterns_checked_for_gaps"] = gaps


_gapc = {}


def gap(o, where, pat, why):
    if pat not in _gapc:
        try:
            _gapc[pat] = rx.full_match_gap(pat)
        except (rx.Unsupported, rx.RxError) as e:
            o.notes.append("not decided for %s: %s" % (where, e))
            _gapc[pat] = None
    if _gapc[pat] is not None:
        o.add("C28:gap:" + where, where, "%s, and %r fits %r without being it" % (why, _gapc[pat], pat[:100]))
    return 1


def begins(q, S):
    return AND(var(t("found", q, S)), eq(run.M.ms(t("m", q, S, "find", ty=run.M.MATCH)), c(0)))


def eng_args(eng, k):
    out = []
    body = eng.d["instances"][k]["body"]
    nm = {0: "re", 1: "text", 2: "desc", 3: "prefix"}
    for i in range(body["argc"]):
        out.append(t("arg", nm.get(i, str(i)), ty=eng.ty(body["locals"][i + 1])))
    return out


def compare_nodes_(a, b, path):
    rep = Report()
    compare_nodes(a, b, TRUE, path, rep)
    return rep


def decide(o, p, k, fn, rep, rule):
    if rep.bad:
        o.add("C28:" + fn, span(p, k), "%s: %s" % (fn, rule), witness(rep))
    for u in rep.undecided[:1]:
        o.notes.append("undecided: %s: %s" % (fn, str(u)[:200]))


# ------------------------------------------------------------------ C16
def c16(o):
    """data half: whatever length a description admits, the possibility check of the same calling code admits"""
    md = meta.metadata()
    lead = {}
    for m in md:
        cc = m["country_code"]
        if cc not in lead or m.get("main_country_for_code"):
            lead[cc] = m
    n = 0
    for m in md:
        big = lead[m["country_code"]]["general_desc"]
        may = set(big.get("possible_length", [])) | set(big.get("possible_length_local_only", []))
        own = m.get("general_desc", {}).get("possible_length", [])
        for d in meta.DESCS[:-1]:
            v = m.get(d)
            if not v or not v.get("national_number_pattern"):
                continue
            n += 1
            ls = v.get("possible_length") or own
            ls = [x for x in ls if not own or x in own]
            extra = sorted(set(ls) - may)
            if extra:
                o.add("C16:%s.%s" % (meta.where(m), d), "src/generated/metadata/metadata.rs " + meta.where(m) + "." + d,
                      "numbers of length %s can be valid for %s but are not possible for calling code %s" % (extra, m.get("id"), m["country_code"]))
    o.cov["descriptions_checked"] = n


CHECKS = {"C05": [c05], "C12": [c12], "C27": [c27], "C28": [c28], "C16": [c16]}
LEVEL = {}
ASSUME = ["the MIR rustc (nightly) builds from /repo's lib target, with debug assertions' overflow checks, is what users run",
          "std, regex, dashmap, protobuf, itoa, strum and dec_from_char behave as documented (their effect is modelled, not analysed)",
          "the reference definitions in /verif/specs state what the property means"]
CLAIMED = set(CHECKS)
TECH = {"equiv": ("value-graph (gated SSA) equivalence of the MIR of each function with a reference definition, callees opaque",
                  "decided for every input by comparing normal forms of the functions' dataflow; functions the comparison cannot decide are listed as undecided in the evidence and raise no alarm")}
