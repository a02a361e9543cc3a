"""Equivalence obligations: each named function of /repo against its reference definition, callees opaque.

A private function that differs is not by itself a violation: its callers are compared again with the
function expanded on both sides.  Only a difference that survives up to the exported operations (or that
the callers cannot be shown to absorb) is reported."""
import multiprocessing as mp, os, re, signal, time, traceback
W = int(os.environ.get("SA_WIDTH", "160"))
from . import callg, equiv, models, run
from .bounds import BOUNDARIES
from .compare import Report, compare
from .eng import Unsupported
from .vals import *
from .term import TRUE

DEEP = os.environ.get("SA_DEEP") == "1"
LIMIT = 300 if DEEP else 100  # seconds for one comparison
# operations of the library that have no exported wrapper (yet): what they return is promised all the same
ROOTS = {"I:" + n for n in """format_by_pattern format_national_number_with_preferred_carrier_code is_possible_number_for_type
is_possible_number_for_type_with_reason is_possible_number_for_string is_number_match_with_one_string
is_number_match_with_two_strings get_ndd_prefix_for_region get_country_mobile_token get_example_number_for_non_geo_entity
get_example_number_for_type_and_region_code""".split()}
NOT = {"I:get_region_codes_for_country_calling_code"}


class Late(Exception):
    pass


def _alarm(*a):
    raise Late()


def spec_names(ds):
    """names of the reference definitions -> instance key"""
    out = {}
    for k, i in ds["instances"].items():
        if i["crate"] != "vspec" or not i.get("body") or not i.get("is_fn", True) or "{closure" in i["name"]:
            continue
        n = i["name"]
        m = re.match(r"vspec::(?:api|part\d)::(.*)$", n)
        if not m:
            continue
        own = re.findall(r"\w+", n)
        base = re.sub(r"::<.*>$", "", n).split("::")[-1]
        if "PhoneNumberUtilInternal" in own:
            nm = "I:" + base
        elif "PhoneNumberUtil" in own:
            nm = "A:" + base
        elif "<" in n:
            continue
        else:
            nm = base
        if not i.get("pub", True):
            continue
        out[nm] = k
    return out


class Program:
    def __init__(self):
        self.di, self.ds = equiv.impl(), equiv.spec()
        sn = spec_names(self.ds)
        self.impl, self.spec, self.missing, self.shape = {}, {}, [], []
        for n, k in sorted(sn.items()):
            try:
                ik = run.find(self.di, n)
            except KeyError:
                self.missing.append(n)
                continue
            self.impl[n], self.spec[n] = ik, k
        for n in list(self.impl):
            if n[:2] != "A:" and self.sig(self.di, self.impl[n]) != self.sig(self.ds, self.spec[n]):
                self.shape.append(n)
        self.g = callg.graph(self.di)
        self.byk = {k: n for n, k in self.impl.items()}
        short_ = {n.split(":")[-1] for n in self.impl if n not in self.shape and n[:2] != "A:"}
        self.bounds = {n for n in BOUNDARIES if n in short_ and n not in equiv.INLINE}
        self.names = [n for n in self.impl if n not in self.shape and n not in NOT]

    def sig(self, d, k):
        b = d["instances"][k]["body"]
        e = run.Engine(d, {})
        out = []
        for i in range(b["argc"] + 1):
            ty = e.ty(b["locals"][i])
            m = e.raw[b["locals"][i]]
            s = re.sub(r"vspec::", "", ty.s)
            if i == 0:
                m2 = re.match(r"^Result<(.*),[\w]*(InvalidRegexError|Error\w*)>$", s)
                s = m2.group(1) if m2 else s
            out.append(s + ("&mut" if m["k"] == "ref" and m.get("mut") else ""))
        return out

    def below(self, names):
        """names and every obligation they reach through the call graph"""
        seen, todo, out = set(), [self.impl[n] for n in names if n in self.impl], set(names)
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            o = self.byk.get(x)
            if o in self.names:
                out.add(o)
            todo += self.g.get(x, ())
        return sorted(out)

    def callers(self, n):
        """obligations that reach n without passing another obligation"""
        k = self.impl[n]
        out = []
        for m in self.names:
            if m == n:
                continue
            # walk from m through functions that are no boundary
            seen, todo, hit = set(), [self.impl[m]], False
            while todo and not hit:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                for y in self.g.get(x, ()):
                    if y == k:
                        hit = True
                        break
                    o = self.byk.get(y)
                    if o is not None and o.split(":")[-1] in self.bounds:
                        continue
                    todo.append(y)
            if hit:
                out.append(m)
        return out

    def evaluate(self, name, skip=()):
        """-> dict(status, report, ...)"""
        t0 = time.time()
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(LIMIT)
        r = {"name": name, "skip": sorted(skip)}
        try:
            own = name.split(":")[-1]
            sk = {s.split(":")[-1] for s in skip}
            if not name.startswith("A:"):
                sk.add(own)
            e1, e2, rep = self.attempt(name, sk)
            if rep.bad:
                # a helper may be called on one side and written out on the other, or called with
                # other arguments: look inside those whose calls differ
                i1, i2 = [{(ev.info[0], tuple(ev.info[2])) for ev in e.events if ev.kind == "bcall"} for e in (e1, e2)]
                c1, c2 = {x[0] for x in i1}, {x[0] for x in i2}
                done = []
                for more, need in ((c1 ^ c2, True), ((c1 ^ c2) | {x[0] for x in i1 ^ i2}, False)):
                    more = more & self.bounds - sk
                    if not more or more in done:
                        continue
                    done.append(more)
                    signal.alarm(LIMIT if need else LIMIT // 3)
                    try:
                        e1b, e2b, rep2 = self.attempt(name, sk | more)
                    except Late:
                        if need:
                            raise
                        continue
                    except (Unsupported, RecursionError, KeyError, TooBig):
                        continue
                    if not rep2.bad and not rep2.undecided:
                        e1, e2, rep = e1b, e2b, rep2
                        r["expanded"] = sorted(more)
                        break
            if rep.undecided and not rep.bad:
                # does the program do what the definition says but for walking part of a sequence only?
                models.WHOLE[:] = [True, []]
                try:
                    e1b, e2b, rep2 = self.attempt(name, sk)
                    if models.WHOLE[1] and not rep2.bad and not rep2.undecided:
                        w = ", ".join(sorted(set(models.WHOLE[1])))
                        rep.bad.append(("result", (), "as the definition, over the part %s of a sequence only" % w, "over all of it"))
                except (Unsupported, RecursionError, KeyError, TooBig):
                    pass
                finally:
                    models.WHOLE[:] = [False, []]
            r.update(checked=rep.checked, equal=rep.equal, undecided=[str(u)[:300] for u in rep.undecided],
                     bad=[{"at": p, "when": [(repr(a)[:W], b) for a, b in w][:24], "impl": repr(la)[:3*W], "ref": repr(lb)[:3*W]} for p, w, la, lb in rep.bad[:4]],
                     inlined=sorted({short(self.di["instances"][k]["name"]) for k in e1.inlined}),
                     spans=sorted({"%s:%s" % tuple(self.di["instances"][k]["span"][:2]) for k in e1.inlined if self.di["instances"][k].get("span") and self.di["instances"][k]["crate"].startswith("rlib")})[:30])
            if rep.bad:
                r["status"] = "differs"
            elif rep.undecided:
                r["status"] = "undecided"
            else:
                r["status"] = "equal"
        except Late:
            r.update(status="undecided", undecided=["time limit"], bad=[])
        except RecursionError:
            r.update(status="undecided", undecided=["recursion limit"], bad=[])
        except Exception as e:
            r.update(status="undecided", undecided=["%s: %s" % (type(e).__name__, str(e)[:200])], bad=[], trace=traceback.format_exc()[-600:])
        finally:
            signal.alarm(0)
        r["wall"] = round(time.time() - t0, 2)
        return r

    def attempt(self, name, sk):
        bs = {b: None for b in self.bounds if b not in sk}
        e1, v1, s1, o1 = run.evaluate(self.di, self.impl[name], dict(bs), names=self.argnames(name))
        e2, v2, s2, o2 = run.evaluate(self.ds, self.spec[name], dict(bs), names=self.argnames(name))
        rep = Report()
        if v1 is UNDEF or v2 is UNDEF:
            rep.undecided.append(("", "no value"))
            return e1, e2, rep
        if equiv.is_result(v1) and not equiv.is_result(v2):
            v1 = equiv.okpart(v1)
        lost = [n for n in e1.notes if n[0].startswith("store through an opaque")]
        rep = compare(v1, v2, TRUE, "result")
        for k in o2:
            if k in o1:
                compare(o1[k], o2[k], TRUE, "out:" + k, rep)
        if lost and rep.bad:
            # something is written where the analysis does not see it: no verdict
            rep.undecided += [(b[0], "a write through a pointer that is not followed, at %s" % (lost[0][1],)) for b in rep.bad]
            rep.bad = []
        return e1, e2, rep

    def argnames(self, name):
        tag = name.split(":")[-1]
        n = self.di["instances"][self.impl[name]]["body"]["argc"]
        return {i: "%s.%d" % (tag, i) for i in range(n)}


_P = None


def program():
    global _P
    if _P is None:
        _P = Program()
    return _P


def _job(a):
    return _P.evaluate(*a)


def run_all(jobs, procs=8):
    program()
    if len(jobs) <= 1:
        return [_P.evaluate(*j) for j in jobs]
    ctx = mp.get_context("fork")
    with ctx.Pool(min(procs, len(jobs))) as p:
        return p.map(_job, jobs, chunksize=1)


def decide(names, deadline=600):
    """-> (results per name, violations, notes)"""
    p = program()
    t0 = time.time()
    todo = [n for n in names if n in p.names]
    notes = ["no counterpart in /repo, expanded where it is used: " + n for n in names if n in p.missing]
    notes += ["signature differs from the definition's, expanded where it is used: " + n for n in names if n in p.shape]
    res = {r["name"]: r for r in run_all([(n, ()) for n in todo])}
    viol = []
    # a function that is gone or has another shape: its callers carry its meaning
    extra = [n for n in names if n in p.shape]
    more = []
    for n in extra:
        more += [m for m in p.callers(n) if m not in res]
    for r in run_all([(n, ()) for n in sorted(set(more))]):
        res[r["name"]] = r
    for n in [n for n in res if res[n]["status"] == "differs"]:
        ok, why = absorbed(p, n, {n}, t0 + deadline, notes)
        if ok:
            notes.append("%s differs from its definition, and every caller absorbs the difference" % n)
            res[n]["status"] = "absorbed"
        else:
            viol.append(dict(res[n], survives=why))
    return res, viol, notes


def absorbed(p, n, skip, end, notes):
    """does every caller of n, with n expanded, equal its definition?"""
    if n.startswith("A:") or n in ROOTS:
        return False, [n]
    cs = p.callers(n)
    if not cs:
        return True, []  # dead code in /repo
    for r in run_all([(c, tuple(sorted(skip))) for c in cs]):
        if r["status"] == "equal":
            continue
        if time.time() > end:
            return False, [n, r["name"] + " (time limit)"]
        if r["status"] == "undecided":
            return False, [n, r["name"] + " (undecided with it expanded)"]
        ok, why = absorbed(p, r["name"], skip | {r["name"]}, end, notes)
        if not ok:
            return False, [n] + why
    return True, []
