"""The embedded metadata, decoded from the source text of src/generated/metadata/metadata.rs with the
field numbers of resources/phonemetadata.proto."""
import os, re
from . import build


def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", " ", s)


def rust_bytes(path, name):
    s = strip_comments(open(path, encoding="utf8").read())
    m = re.search(r"\b(?:static|const)\s+%s\s*:\s*[^=]*=\s*&?\s*\[(.*?)\]\s*;" % name, s, re.S)
    if not m:
        raise ValueError("no array %s in %s" % (name, path))
    out = bytearray()
    for tok in m.group(1).split(","):
        tok = tok.strip().replace("_", "")
        if tok.endswith("u8"):
            tok = tok[:-2]
        if not tok:
            continue
        if tok.startswith("b'"):
            out.append(ord(tok[2:-1].encode().decode("unicode_escape")))
        else:
            out.append(int(tok, 0))
    return bytes(out)


def proto(path):
    """message -> {number: (name, label, type, default)}"""
    s = strip_comments(open(path, encoding="utf8").read())
    out = {}
    for m in re.finditer(r"\bmessage\s+(\w+)\s*\{", s):
        depth, i = 1, m.end()
        while depth:
            depth += {"{": 1, "}": -1}.get(s[i], 0)
            i += 1
        body = s[m.end():i - 1]
        body = re.sub(r"\benum\s+\w+\s*\{[^}]*\}", "", body)
        f = {}
        for g in re.finditer(r"\b(required|optional|repeated)\s+(\w+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;", body):
            d = re.search(r"default\s*=\s*(\w+)", g.group(5) or "")
            f[int(g.group(4))] = (g.group(3), g.group(1), g.group(2), d.group(1) if d else None)
        out[m.group(1)] = f
    return out


class Bad(Exception):
    pass


def varint(b, i):
    r = s = 0
    while True:
        if i >= len(b):
            raise Bad("truncated varint at %d" % i)
        x = b[i]
        i += 1
        r |= (x & 127) << s
        if not x & 128:
            return r, i
        s += 7
        if s > 63:
            raise Bad("varint too long at %d" % i)


def decode(b, ps, msg):
    f = ps[msg]
    out = {n: [] for n, lab, _, _ in f.values() if lab == "repeated"}
    i = 0
    while i < len(b):
        tag, i = varint(b, i)
        num, wt = tag >> 3, tag & 7
        if wt == 0:
            v, i = varint(b, i)
        elif wt == 2:
            n, i = varint(b, i)
            if i + n > len(b):
                raise Bad("truncated field %d of %s" % (num, msg))
            v, i = b[i:i + n], i + n
        else:
            raise Bad("wire type %d in %s" % (wt, msg))
        if num not in f:
            raise Bad("unknown field %d of %s" % (num, msg))
        name, lab, ty, _ = f[num]
        if ty == "string":
            v = v.decode("utf8")
        elif ty in ("int32", "uint64", "int64", "uint32"):
            if wt == 2:
                j, vs = 0, []
                while j < len(v):
                    x, j = varint(v, j)
                    vs.append(x if x < 1 << 63 else x - (1 << 64))
                out[name] += vs
                continue
            v = v if v < 1 << 63 else v - (1 << 64)
        elif ty == "bool":
            v = bool(v)
        elif ty in ps:
            v = decode(v, ps, ty)
        else:
            raise Bad("type " + ty)
        if lab == "repeated":
            out[name].append(v)
        elif ty in ps and name in out:
            raise Bad("field %s twice" % name)
        else:
            out[name] = v
    for n, lab, _, _ in f.values():
        if lab == "required" and n not in out:
            raise Bad("required field %s of %s missing" % (n, msg))
    return out


_c = {}


def metadata():
    """-> list of territories as dicts"""
    k = "m"
    if k not in _c:
        b = rust_bytes(os.path.join(build.REPO, "src/generated/metadata/metadata.rs"), "METADATA")
        ps = proto(os.path.join(build.REPO, "resources/phonemetadata.proto"))
        _c[k] = (decode(b, ps, "PhoneMetadataCollection")["metadata"], len(b), ps)
    return _c[k][0]


DESCS = ("general_desc", "fixed_line", "mobile", "toll_free", "premium_rate", "shared_cost", "personal_number", "voip", "pager", "uan",
         "voicemail", "no_international_dialling")


def where(m):
    return "%s(+%s)" % (m.get("id"), m.get("country_code"))


def patterns(m):
    """every pattern of a territory -> (where, how it is used, text)"""
    w = where(m)
    for d, v in m.items():
        if isinstance(v, dict) and v.get("national_number_pattern"):
            yield w + "." + d, "desc", v["national_number_pattern"]
    for k in ("international_prefix", "national_prefix_for_parsing", "leading_digits"):
        if m.get(k):
            yield w + "." + k, k, m[k]
    for lst in ("number_format", "intl_number_format"):
        for n, f in enumerate(m.get(lst, ())):
            yield "%s.%s[%d].pattern" % (w, lst, n), "format", f["pattern"]
            for j, p in enumerate(f.get("leading_digits_pattern", ())):
                yield "%s.%s[%d].leading_digits_pattern[%d]" % (w, lst, n, j), "leading", p
