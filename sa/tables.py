"""The character and country tables, from what they are for rather than from the code (C22, C24)."""
import string

from .vals import MapV

E161 = {"ABC": "2", "DEF": "3", "GHI": "4", "JKL": "5", "MNO": "6", "PQRS": "7", "TUV": "8", "WXYZ": "9"}
# the digits are ASCII here: other scripts are handled before or dropped
_digits = {c: c for c in string.digits}
_hyphens = "-\uFF0D\u2010\u2011\u2012\u2013\u2014\u2015\u2212"
_slashes = "/\uFF0F"
_blanks = " \u3000\u2060"
_dots = ".\uFF0E"

diallable = {**_digits, "+": "+", "*": "*", "#": "#"}
alpha_phone = {**_digits, **{l: d for ls, d in E161.items() for l in ls}}
grouping = {
    **_digits, **{c: c for c in string.ascii_uppercase},
    **{c: "-" for c in _hyphens}, **{c: "/" for c in _slashes},
    **{c: " " for c in _blanks}, **{c: "." for c in _dots},
}


def _o(d):
    return {ord(k): ord(v) for k, v in d.items()}


CHAR_TABLES = {
    "diallable_char_mappings": _o(diallable),
    "alpha_phone_mappings": _o(alpha_phone),
    "all_plus_number_grouping_symbols": _o(grouping),
}
OTHER = {
    "mobile_token_mappings": {54: ord("9")},
    "countries_without_national_prefix_with_area_codes": {52: None},
    "geo_mobile_countries_without_mobile_area_codes": {86: None},
    "geo_mobile_countries": {k: None for k in (52, 54, 55, 62, 86)},
}
TABLES = {**CHAR_TABLES, **OTHER}


def effective(d):
    """what a lookup by ASCII upper case can reach"""
    return {k: v for k, v in d.items() if not 97 <= k <= 122}


def plain(m):
    """the constants of an evaluated table, or None"""
    out = {}
    for k, v in m.d.items():
        k = getattr(k, "leaf", k)
        if k.op != "c":
            return None
        if v is not None:
            v = getattr(v, "leaf", None)
            if v is None or v.op != "c":
                return None
            v = v.args[0]
        out[k.args[0]] = v
    return out


def oracle():
    from .term import c, cn
    return {n: MapV({c(k): None if v is None else cn(v) for k, v in d.items()}) for n, d in TABLES.items()}


def field_of(rx, want):
    """the table of this meaning in the evaluated constants: by its name, else the closest one by content"""
    cands = {}
    for n, v in rx.f.items():
        if isinstance(v, MapV):
            p = plain(v)
            if p is not None:
                cands[n] = p
    if want in cands:
        return want, cands[want]
    ref = effective(CHAR_TABLES[want])
    best = sorted(cands.items(), key=lambda kv: (len(set(effective(kv[1]).items()) ^ set(ref.items())), kv[0]))
    return best[0] if best else (None, None)


USERS = {
    # a table that only an operation with a wider meaning shows: the difference counts where the operation shows it
    "all_plus_number_grouping_symbols": "I:format_out_of_country_keeping_alpha_chars",
}


def c24_tables(o):
    from . import oblig, run
    p = oblig.program()
    rx = run.regexps(run.Engine(p.di, {}))
    n = 0
    for want, user in USERS.items():
        name, got = field_of(rx, want)
        if name is None:
            o.notes.append("undecided: no table of the meaning of %s" % want)
            continue
        ref = effective(CHAR_TABLES[want])
        got = effective(got)
        n += len(ref)
        wrong = sorted(k for k in set(got) | set(ref) if got.get(k, -1) != ref.get(k, -1))
        if not wrong or user not in p.names:
            continue
        res, viol, notes = oblig.decide([user])
        o.notes += notes
        if viol:
            k = p.impl[user]
            sp = p.di["instances"][k].get("span") or ["?", 0]
            o.add("C24:" + want, "%s:%s" % (sp[0], sp[1]),
                  "table %s: %s" % (name, ", ".join("U+%04X gives %s where %s is right" % (
                      w, _u(got.get(w, -1)), _u(ref.get(w, -1))) for w in wrong[:5])), viol[0])
    o.cov["table_entries_compared"] = n


def _u(x):
    return "nothing" if x == -1 else "U+%04X" % x if isinstance(x, int) else str(x)
