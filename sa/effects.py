"""C03: what an answer can depend on besides the arguments: state that outlives a call, the world outside,
addresses, and the order of hashed collections."""
import re
from . import callg, oblig
from .locks import plain, Mir, succ, moved, mentions
from .models import short

HASHIT = re.compile(r"hash_map::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain|ExtractIf)\b"
                    r"|hash_set::(Iter|IntoIter|Drain|Union|Intersection|Difference|SymmetricDifference|ExtractIf)\b"
                    r"|hashbrown::(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|IntoKeys|IntoValues|Drain)\b"
                    r"|dashmap::iter\w*::\w+")
HASHED = re.compile(r"^&?(mut )?(std::collections::(hash_map::)?Hash(Map|Set)|hashbrown::(map::HashMap|set::HashSet)|dashmap::Dash(Map|Set))<")
WORLD = re.compile(r"^(std::time::(Instant|SystemTime)::(now|elapsed)|(chrono|time)::.*now|std::env::(var|vars|args|current_dir|temp_dir|var_os|args_os)\w*"
                   r"|std::fs::\w|std::io::(stdin|Stdin|Read)\b|std::net::|std::process::id|std::thread::(current|Builder|spawn|available_parallelism)|std::thread::Thread::id"
                   r"|rand(_core)?::|getrandom::|fastrand::|std::hash::RandomState::|std::hash::BuildHasher::hash_one|std::hash::BuildHasher::build_hasher"
                   r"|std::panic::Location::caller|std::backtrace::|std::alloc::|std::fs::File::|std::path::Path::(exists|is_file|is_dir))")
ADDR = re.compile(r"^(std|core|alloc)::(ptr::(eq|addr_eq|hash|fn_addr_eq)|.*::ptr_eq|fmt::Pointer::fmt|ptr::(const_ptr|mut_ptr)::.*addr)$|::fmt::Pointer|<.*as std::fmt::Pointer>|::ptr_eq$|^std::ptr::eq")
CELL = re.compile(r"^(std|core)::(cell::(Cell|RefCell|UnsafeCell|OnceCell|LazyCell)|sync::(atomic::Atomic\w*|Mutex|RwLock|OnceLock|LazyLock|Condvar|poison::\w+::\w+)|sync::(once_lock|lazy_lock|mutex|rwlock)::\w+|thread::(local::)?LocalKey)$"
                  r"|^(parking_lot|lock_api|once_cell|dashmap|crossbeam\w*|arc_swap|thread_local)::")
GUARDISH = re.compile(r"^(lock_api|dashmap)::.*(Guard|Ref|RefMut|Entry|Iter|RefMulti)\b|^dashmap::(lock|util|mapref)::")
WRITES = {"store", "set", "clear", "new", "get_mut", "into_inner", "default", "from", "drop", "fmt", "with_capacity", "force", "deref"}
GEN = re.compile(r"rlibphonenumber::generated::")
LAZY = re.compile(r"::(LazyLock|LazyCell|Lazy)$")
ONCE = re.compile(r"::(OnceLock|OnceCell)$")


def own(d):
    for k, i in d["instances"].items():
        if i.get("body") and i["crate"].startswith("rlib") and not GEN.search(i["name"].split(" as ")[0]):
            yield k, i, i["body"]


def where(bl):
    return "%s:%s" % tuple(bl["sp"][:2])


def fname(i):
    n = i["name"]
    m = re.match(r"(.*?)::\{closure", n)
    return short(m.group(1)) if m else short(n)


def strip(d, ti):
    x = d["types"][ti]
    while x.get("k") in ("ref", "ptr", "rawptr") and isinstance(x.get("t"), int):
        x = d["types"][x["t"]]
    return x


def opty(d, b, op):
    """type index of a plain operand, None when it is a projection"""
    if op[0] in ("m", "p", "cp") and isinstance(op[1], list):
        pl = op[1]
        if not pl[1]:
            return b["locals"][pl[0]]
        last = pl[1][-1]
        if last[0] == "f":
            return last[3] if len(last) > 3 else None
        return None
    if op[0] == "c" and isinstance(op[1], dict):
        return op[1].get("t")
    return None


def states(d):
    """types with interior mutability that outlive a call: in statics, in the fields of the crate's own types, in thread locals.
    -> {type string: where it lives}"""
    out = {}

    def down(ti, path, seen):
        x = d["types"][ti]
        if ti in seen or len(seen) > 60:
            return
        seen.add(ti)
        k = x.get("k")
        if k in ("ref", "array", "slice"):
            if isinstance(x.get("t"), int):
                down(x["t"], path, seen)
        elif k == "tuple":
            for y in x.get("ts", x.get("args", ())):
                if isinstance(y, int):
                    down(y, path, seen)
        elif k == "adt":
            n = x["name"]
            if CELL.search(n):
                if not GUARDISH.search(n):
                    out.setdefault(x["s"], path)
                if LAZY.search(n) or n.endswith("LocalKey"):
                    for y in x.get("args", ()):
                        if isinstance(y, int):
                            down(y, path, seen)
                return
            if x.get("crate", "").startswith("rlib"):
                if GEN.search("rlibphonenumber::" + n) or GEN.search(n) or n.startswith("generated::"):
                    return
                for v in x.get("variants", ()):
                    for f in v["fields"]:
                        down(f[1], "field %s of %s" % (f[0], short(n)), seen)
            elif x.get("crate") in ("core", "alloc", "std", "hashbrown"):
                for y in x.get("args", ()):
                    if isinstance(y, int):
                        down(y, path, seen)
    for n, s in d["statics"].items():
        if n.startswith("<rlibphonenumber::generated") or GEN.search(n):
            continue
        down(s["t"], "static %s" % n, set())
    for i, x in enumerate(d["types"]):
        if x.get("k") == "adt" and x.get("crate", "").startswith("rlib"):
            down(i, "type %s" % short(x["name"]), set())
        if x.get("k") == "adt" and x["name"].endswith("::LocalKey"):
            down(i, "a thread-local", set())
    return out


def used(b, local, skip):
    """is a local read anywhere but in the statement that defines it?"""
    pat = local
    for n, bl in enumerate(b["blocks"]):
        for s in bl["s"]:
            if s[0] == "=" and mentions_local(s[2], pat):
                return True
        t = bl["t"]
        if t[0] == "call":
            if any(mentions_local(a, pat) for a in t[2]):
                return True
        elif t[0] in ("switch", "assert"):
            if mentions_local(t[1], pat):
                return True
    return local == 0


def mentions_local(x, l):
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and x[0] == l:
            return True
        return any(mentions_local(y, l) for y in x)
    return False


def captured(b, op):
    """the operands a closure captures, None when op is no closure"""
    if op[0] == "c":
        return []
    if op[0] in ("m", "p") and not op[1][1]:
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[1] == [op[1][0], []]:
                    if s[2][0] == "agg" and s[2][1][0] == "closure":
                        return s[2][2]
                    if s[2][0] == "use":
                        return captured(b, s[2][1])
    return None


def captures_nothing(d, b, op):
    return captured(b, op) == []


def c03_state(o):
    p = oblig.program()
    d = p.di
    st = states(d)
    nf = nc = 0
    for n, s in d["statics"].items():
        if s.get("mut"):
            o.add("C03:static:%s" % short(n), n, "%s is a mutable static: what an earlier call leaves there outlives it" % n, None)
    for k, i, b in own(d):
        nf += 1
        for bl in b["blocks"]:
            for s in bl["s"]:
                if s[0] == "=" and s[2][0] == "cast" and "Expose" in str(s[2][1]):
                    o.add("C03:address:%s" % fname(i), where(bl), "%s turns an address into a number" % fname(i), None)
            t = bl["t"]
            if t[0] != "call" or not isinstance(t[1], dict):
                continue
            nc += 1
            name = plain(t[1].get("name", ""))
            insn = d["instances"].get(t[1].get("inst"), {}).get("name", "")
            if (WORLD.search(name) or WORLD.search(plain(insn))) and not d["instances"].get(t[1].get("inst"), {}).get("crate", "").startswith("rlib"):
                if used(b, t[3][0], bl) or name.startswith("std::io"):
                    o.add("C03:world:%s" % fname(i), where(bl), "%s calls %s, whose answer is not a function of the arguments" % (fname(i), t[1]["name"]), None)
            if ADDR.search(name) or "fmt::Pointer" in insn:
                o.add("C03:address:%s" % fname(i), where(bl), "%s looks at an address: it calls %s" % (fname(i), t[1]["name"]), None)
            for x in mentions(t[2], []):
                if "fmt::Pointer" in x:
                    o.add("C03:address:%s" % fname(i), where(bl), "%s prints an address" % fname(i), None)
            if not t[2]:
                continue
            ti = opty(d, b, t[2][0])
            if ti is None:
                continue
            x = strip(d, ti)
            if x.get("k") != "adt" or not CELL.search(x["name"]) or x["s"] not in st:
                continue
            meth = name.split("::")[-1]
            if d["instances"].get(t[1].get("inst"), {}).get("crate", "").startswith("rlib"):
                continue
            if "regex::Regex" in x["s"] and not re.search(r"\((?!\))|Vec<|bool|usize", x["s"]):
                # a cache of compiled patterns: C04 decides what it stores
                continue
            if LAZY.search(x["name"]):
                continue
            if meth in WRITES and meth not in ("get_mut",):
                continue
            if ONCE.search(x["name"]):
                if meth.startswith("get_or") and len(t[2]) > 1 and captures_nothing(d, b, t[2][1]):
                    continue
                if meth in ("get", "is_initialized") and not setters(d, x["s"]):
                    continue
                if meth.startswith("get_or") and len(t[2]) > 1 and only_self(d, b, t[2][1]):
                    continue
            ret = d["types"][b["locals"][t[3][0]]]
            if ret.get("s") == "()" or not used(b, t[3][0], bl):
                continue
            if meth.startswith(("fetch_", "swap")) and not used(b, t[3][0], bl):
                continue
            o.add("C03:state:%s" % fname(i), where(bl), "%s reads %s (%s) by %s: what it finds there was left by earlier calls" % (fname(i), x["s"][:90], st[x["s"]], meth),
                  {"function": i["name"], "type": x["s"], "lives in": st[x["s"]]})
    o.cov.update(functions_scanned=nf, calls_scanned=nc, shared_state={k[:100]: v for k, v in st.items()})


def setters(d, s):
    """someone fills this cell with something"""
    for k, i, b in own(d):
        for bl in b["blocks"]:
            t = bl["t"]
            if t[0] == "call" and t[2] and isinstance(t[1], dict) and plain(t[1].get("name", "")).endswith(("::set", "::try_insert")):
                ti = opty(d, b, t[2][0])
                if ti is not None and strip(d, ti)["s"] == s:
                    return True
    return False


def only_self(d, b, op):
    """a closure that captures nothing but the instance the cell is part of"""
    ops = captured(b, op)
    if ops is None:
        return False
    for y in ops:
        ti = opty(d, b, y)
        if ti is None or not re.search(r"(PhoneNumberUtil(Internal)?|PhoneNumberRegExpsAndMappings|RegexCache)$", strip(d, ti).get("name", "")):
            return False
    return True


# ---------------------------------------------------------------- order of hashed collections

OKEND = {"all", "any", "count", "sum", "product", "min", "max", "size_hint", "len", "is_empty", "is_sorted"}
ADAPT = {"map", "filter", "filter_map", "cloned", "copied", "inspect", "flat_map", "flatten", "chain", "into_iter", "iter", "by_ref", "fuse", "partition",
         "from_fn", "clone", "as_ref", "borrow", "deref", "new", "Some", "into", "from"}
CUT = {"take", "skip", "enumerate", "zip", "step_by", "take_while", "skip_while", "map_while", "scan", "rev", "peekable"}
PICK = {"next", "nth", "last", "find", "find_map", "position", "rposition", "reduce", "next_back", "max_by_key", "min_by_key", "max_by", "min_by", "cmp", "partial_cmp", "eq", "ne",
        "lt", "gt", "le", "ge"}
SEQ = re.compile(r"^&?(mut )?(std::vec::Vec|std::collections::VecDeque|std::collections::vec_deque::VecDeque|std::string::String|std::collections::LinkedList|alloc::vec::Vec|std::boxed::Box<\[)")
SORTS = re.compile(r"^sort(_unstable)?(_by|_by_key|_by_cached_key)?$")
SEQPICK = {"first", "last", "get", "pop", "pop_front", "pop_back", "index", "remove", "swap_remove", "join", "concat", "split_first", "split_last", "front", "back", "first_mut",
           "swap", "truncate", "split_at", "chunks", "windows", "binary_search", "binary_search_by", "binary_search_by_key", "partition_point", "dedup"}
THROUGH = {"deref", "deref_mut", "as_slice", "as_mut_slice", "as_ref", "as_mut", "borrow", "borrow_mut", "as_str", "into_boxed_slice", "into_vec", "from", "into", "make_contiguous", "clone", "to_vec", "to_owned"}


class Fn:
    def __init__(self, d, k, i, b):
        self.d, self.k, self.i, self.b = d, k, i, b
        self.L = b["locals"]
        self.defs = {}
        for n, bl in enumerate(b["blocks"]):
            for s in bl["s"]:
                if s[0] == "=":
                    self.defs.setdefault(s[1][0], []).append((n, s[1][1], s[2]))
            t = bl["t"]
            if t[0] == "call":
                self.defs.setdefault(t[3][0], []).append((n, t[3][1], t))
        self.roots = {}

    def ts(self, l):
        return self.d["types"][self.L[l]]["s"]

    def root(self, pl, depth=0):
        """the place a reference chain starts from: (local, fields)"""
        l, pr = pl[0], [q for q in pl[1] if q[0] != "*"]
        fl = tuple(q[1] for q in pr if q[0] == "f")
        ds = [x for x in self.defs.get(l, ()) if not x[1]]
        if depth < 20 and len(ds) == 1 and len(self.defs.get(l, ())) == 1:
            r = ds[0][2]
            q = None
            if r[0] == "ref":
                q = r[2]
            elif r[0] == "use" and r[1][0] in ("m", "p"):
                q = r[1][1]
            elif r[0] == "cast" and r[2][0] in ("m", "p"):
                q = r[2][1]
            elif r[0] == "call" and isinstance(r[1], dict) and r[2] and r[2][0][0] in ("m", "p") and plain(r[1].get("name", "")).split("::")[-1] in THROUGH:
                q = r[2][0][1]
            if isinstance(q, list) and isinstance(q[0], int):
                a, f = self.root(q, depth + 1)
                return a, f + fl
        return l, fl

    def dom(self):
        if not hasattr(self, "_dom"):
            B = self.b["blocks"]
            pred = {}
            for n, bl in enumerate(B):
                for x in succ(bl["t"]):
                    pred.setdefault(x, []).append(n)
            order, seen, st = [], {0}, [(0, iter(succ(B[0]["t"])))]
            while st:
                n, it = st[-1]
                x = next(it, None)
                if x is None:
                    order.append(n)
                    st.pop()
                elif x not in seen:
                    seen.add(x)
                    st.append((x, iter(succ(B[x]["t"]))))
            order.reverse()
            dm = {n: None for n in order}
            dm[0] = {0}
            ch = True
            while ch:
                ch = False
                for n in order[1:]:
                    ps = [dm[q] for q in pred.get(n, ()) if q in dm and dm[q] is not None]
                    if not ps:
                        continue
                    new = set.intersection(*ps) | {n}
                    if new != dm[n]:
                        dm[n] = new
                        ch = True
            self._dom, self._pred, self._order = dm, pred, order
        return self._dom

    def loops(self):
        """header -> blocks of the natural loop"""
        dm = self.dom()
        out = {}
        for n in self._order:
            for h in succ(self.b["blocks"][n]["t"]):
                if h in (dm.get(n) or ()):
                    body, todo = {h}, [n]
                    while todo:
                        x = todo.pop()
                        if x not in body:
                            body.add(x)
                            todo += self._pred.get(x, ())
                    out.setdefault(h, set()).update(body)
        return out

    def reach(self, starts, stop=()):
        seen, todo = set(), list(starts)
        while todo:
            n = todo.pop()
            if n in seen or n in stop:
                continue
            seen.add(n)
            todo += [x for x in succ(self.b["blocks"][n]["t"]) if isinstance(x, int)]
        return seen


def closure_body(d, f, op):
    ti = opty(d, f.b, op)
    x = strip(d, ti) if ti is not None else {}
    if x.get("k") == "closure":
        for k, i in d["instances"].items():
            if i["name"] == x["name"] and i.get("body"):
                return i["body"]
    if op[0] == "c" and isinstance(op[1], dict):
        for z in mentions([op], []):
            if z in d["instances"]:
                return d["instances"][z].get("body")
    return None


def keyish(d, body, payload=2):
    """what a key or comparison closure looks at: 'key' for the key part only, 'other' for anything else, None when unclear"""
    seen = set()
    names = [plain(bl["t"][1].get("name", "")).split("::")[-1] for bl in body["blocks"] if bl["t"][0] == "call" and isinstance(bl["t"][1], dict)]

    def places(x, out):
        if isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
                out.append(x)
            for y in x:
                places(y, out)
        return out
    pls = []
    for bl in body["blocks"]:
        for s in bl["s"]:
            if s[0] == "=":
                pls += places(s[2], [])
        if bl["t"][0] == "call":
            pls += places(bl["t"][2], [])
    for l, pr in pls:
        if l >= payload and l <= body["argc"]:
            fl = [q for q in pr if q[0] == "f"]
            seen.add("whole" if not fl else str(fl[0][1]))
    if any(n in ("len", "count", "chars", "first", "starts_with", "is_empty") for n in names):
        return None if len(seen) > 1 and ("0" in seen or "whole" in seen) else "other"
    if not seen:
        return None
    if seen <= {"whole"} or seen <= {"0"}:
        return "key"
    if "0" not in seen and "whole" not in seen:
        return "other"
    return None


def c03_order(o):
    p = oblig.program()
    d = p.di
    fns = [Fn(d, k, i, b) for k, i, b in own(d)]
    vret = set()       # functions that give back a sequence in unspecified order
    nit = nseq = 0
    found = {}
    for _ in range(4):
        before = len(vret)
        found.clear()
        nit = nseq = 0
        for f in fns:
            a, b_ = scan(f, d, vret, found)
            nit += a
            nseq += b_
        if len(vret) == before:
            break
    for key, (wh, msg) in found.items():
        o.add(key, wh, msg, None)
    o.cov.update(unordered_iterations=nit, unordered_sequences=nseq, functions_with_unordered_results=sorted(short(d["instances"][k]["name"]) for k in vret))


def scan(f, d, vret, found):
    b = f.b
    B = b["blocks"]
    dom = None
    sorts = []       # (root, block, kind)
    useq = {}        # root -> block where it becomes unordered
    uit = set()      # locals that are iterators over such a sequence
    nit = 0

    def bad(kind, bl, msg):
        found.setdefault("C03:%s:%s" % (kind, fname(f.i)), (where(bl), "%s: %s" % (fname(f.i), msg)))

    def unordered(op):
        ti = opty(d, b, op)
        if ti is None:
            return False
        s = d["types"][ti]["s"]
        x = strip(d, ti)
        if x.get("k") == "closure":
            return False
        if HASHIT.search(re.sub(r"\{closure[^}]*\}", "", s)) and x.get("k") == "adt" and not SEQ.search(x["s"]):
            return True
        return op[0] in ("m", "p") and f.root(op[1])[0] in uit

    calls = [(n, bl, bl["t"], plain(bl["t"][1].get("name", "")).split("::")[-1]) for n, bl in enumerate(B) if bl["t"][0] == "call" and isinstance(bl["t"][1], dict)]
    for n, bl, t, m in calls:
        if SORTS.match(m) and t[2] and t[2][0][0] in ("m", "p"):
            kind = "key"
            if len(t[2]) > 1:
                cb = closure_body(d, f, t[2][1])
                kind = keyish(d, cb) if cb else None
            sorts.append((f.root(t[2][0][1]), n, kind, bl))

    def is_sorted(root, n):
        nonlocal dom
        dom = f.dom()
        return any(r == root and q in (dom.get(n) or ()) and q != n and kind != "other" for r, q, kind, _ in sorts)

    # where sequences get their order from a hashed collection
    for _ in range(3):
        for n, bl, t, m in calls:
            if m == "next" and t[2] and unordered(t[2][0]) and next_in_loop(f, n):
                loop_rule(f, d, n, useq, uit)
            inst = t[1].get("inst")
            args = t[2]
            if inst in vret and SEQ.search(f.ts(t[3][0])):
                useq.setdefault(f.root(t[3]), n)
            if not args:
                continue
            src = unordered(args[0])
            if m in ("collect", "from_iter") and src and SEQ.search(f.ts(t[3][0])):
                useq.setdefault(f.root(t[3]), n)
            if m in ("extend", "append", "extend_from_slice", "push_str") and len(args) > 1 and args[0][0] in ("m", "p"):
                ti = opty(d, b, args[1])
                s1 = d["types"][ti]["s"] if ti is not None else ""
                if (unordered(args[1]) or HASHED.search(s1)) and SEQ.search(f.ts(args[0][1][0]) if not args[0][1][1] else ""):
                    useq.setdefault(f.root(args[0][1]), n)
            if args[0][0] in ("m", "p"):
                r = f.root(args[0][1])
                if r in useq and m in ("iter", "into_iter", "drain", "iter_mut", "chars", "bytes") and not is_sorted(r, n) and n != useq[r]:
                    uit.add(t[3][0])
                if args[0][1][0] in uit and m in ADAPT | CUT:
                    uit.add(t[3][0])
        for l, ds in f.defs.items():
            for n, pr, r in ds:
                if r[0] == "use" and r[1][0] in ("m", "p") and not pr and isinstance(r[1][1], list) and not r[1][1][1] and r[1][1][0] in uit:
                    uit.add(l)
    # what is done with them
    for n, bl, t, m in calls:
        args = t[2]
        if not args or not isinstance(t[1], dict):
            continue
        callee = d["instances"].get(t[1].get("inst"), {})
        if callee.get("crate", "").startswith("rlib"):
            continue
        if unordered(args[0]):
            nit += 1
            tr = t[1].get("name", "")
            if "Iterator" not in tr and "iter" not in tr.lower() and not re.search(r"hash_(map|set)", tr):
                continue
            if m in CUT:
                bad("order", bl, "it counts positions (%s) in an iteration whose order is unspecified" % m)
            elif m == "next" and next_in_loop(f, n):
                for msg, kk in loop_rule(f, d, n, useq, uit):
                    bad("order", bl, msg)
            elif m in PICK:
                if m in ("find", "find_map", "position", "next", "last", "nth") and not payload_used(f, t[3][0]):
                    continue
                if m in ("find", "position", "max_by_key", "min_by_key", "max_by", "min_by") and len(args) > 1:
                    cb = closure_body(d, f, args[1])
                    if cb is not None and keyish(d, cb) == "key" and (m not in ("find", "position") or by_key(d, f, args[0], cb)):
                        continue
                    if cb is not None and m in ("max_by_key", "min_by_key", "max_by", "min_by") and keyish(d, cb) is None:
                        continue
                bad("order", bl, "%s picks an element out of an iteration whose order is unspecified" % m)
        elif args[0][0] in ("m", "p"):
            r = f.root(args[0][1])
            if r in useq and n != useq[r] and m in SEQPICK and not is_sorted(r, n) and after(f, useq[r], n):
                bad("order", bl, "%s looks at a position of a sequence filled from a hashed collection and not sorted" % m)
    for r, n, kind, bl in sorts:
        if r in useq and kind == "other" and not any(r2 == r and k2 == "key" for r2, _, k2, _ in sorts):
            bad("order", bl, "the sequence filled from a hashed collection is sorted by something that does not tell its elements apart")
    # sequences that leave the function
    for r, n in useq.items():
        l, fl = r
        rets = [q for q, bl in enumerate(B) if bl["t"][0] == "return"]
        out = l == 0 or flows_out(f, l)
        if out and rets and not all(is_sorted(r, q) for q in rets) and not any(s[0] == r for s in sorts):
            if fl or f.d["types"][f.L[0]].get("k") == "adt" and not SEQ.search(f.ts(0)) and l == 0 and fl:
                bad("order", B[n], "what it builds keeps a sequence in the unspecified order of a hashed collection")
            elif SEQ.search(f.ts(0)):
                vret.add(f.k)
    return nit, len(useq)


def after(f, a, b):
    return b in f.reach([x for x in succ(f.b["blocks"][a]["t"]) if isinstance(x, int)])


def flows_out(f, l):
    seen, todo = set(), [l]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == 0:
            return True
        for y, ds in f.defs.items():
            for n, pr, r in ds:
                if r[0] in ("use", "agg", "cast") and mentions_local(r[1:], x):
                    todo.append(y)
    return False


def payload_used(f, l):
    """is what an Option holds looked at, or only whether it holds something?"""
    seen, todo = set(), [l]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x == 0:
            return True
        for bl in f.b["blocks"]:
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                if s[2][0] == "discr":
                    continue
                if mentions_local(s[2], x):
                    if s[2][0] in ("ref", "use") and not any(q[0] == "f" for pl in all_places(s[2]) if pl[0] == x for q in pl[1]):
                        todo.append(s[1][0])
                    elif any(pl[0] == x and any(q[0] == "f" for q in pl[1]) for pl in all_places(s[2])):
                        return True
                    else:
                        todo.append(s[1][0])
            t = bl["t"]
            if t[0] == "call" and any(mentions_local(a, x) for a in t[2]):
                if plain(t[1].get("name", "") if isinstance(t[1], dict) else "").split("::")[-1] not in ("is_some", "is_none", "is_ok", "is_err"):
                    return True
    return False


def all_places(x, out=None):
    out = [] if out is None else out
    if isinstance(x, list):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list):
            out.append(x)
        for y in x:
            all_places(y, out)
    return out


def by_key(d, f, it, cb):
    """a search for the element whose key equals something: at most one answers"""
    names = [plain(bl["t"][1].get("name", "")).split("::")[-1] for bl in cb["blocks"] if bl["t"][0] == "call" and isinstance(bl["t"][1], dict)]
    eqs = [n for n in names if n in ("eq", "cmp")]
    bins = [s for bl in cb["blocks"] for s in bl["s"] if s[0] == "=" and s[2][0] == "bin"]
    if set(names) - {"eq", "as_str", "deref", "as_ref", "borrow", "as_bytes"}:
        return False
    return len(eqs) + len([s for s in bins if s[2][1] == "Eq"]) == 1 and not [s for s in bins if s[2][1] != "Eq"]


def next_in_loop(f, n):
    return any(n in body for body in f.loops().values())


def loop_rule(f, d, n, useq, uit):
    """a loop over an unordered iteration: what it may carry out of the loop"""
    B = f.b["blocks"]
    cands = [(h, body) for h, body in f.loops().items() if n in body]
    h, body = min(cands, key=lambda x: len(x[1]))
    t = B[n]["t"]
    opt = t[3][0]
    keyed = bool(re.search(r"::(Keys|IntoKeys)<|hash_set::", f.ts(t[2][0][1][0]))) and "iter::Map<" not in f.ts(t[2][0][1][0])
    pair = bool(re.search(r"hash_map::(Iter|IterMut|IntoIter)<", f.ts(t[2][0][1][0]))) and "iter::Map<" not in f.ts(t[2][0][1][0])
    # the switch on what next gave
    done = set()
    for q in body:
        tq = B[q]["t"]
        if tq[0] == "switch":
            for s in B[q]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and s[2][1][0] == opt and not s[2][1][1] and tq[1][0] in ("m", "p") and tq[1][1][0] == s[1][0]:
                    for v, tb in tq[2]:
                        if int(v) == 0:
                            done.add(tb)
    taint, keys, tdef = {opt}, set(), {}
    inner = set(body)
    early = set()
    for q in body:
        for x in succ(B[q]["t"]):
            if isinstance(x, int) and x not in body and x not in done and B[x]["t"][0] not in ("resume", "unreachable"):
                early.add(x)
    after_none = f.reach(done)
    early_only = f.reach(early) - after_none
    region = body | early_only
    res = []
    changed = True
    eqkey = False
    while changed:
        changed = False
        for q in region:
            bl = B[q]
            for s in bl["s"]:
                if s[0] != "=" or s[2][0] == "discr":
                    continue
                pls = [pl for pl in all_places(s[2]) if pl[0] in taint]
                if pls and s[1][0] not in taint:
                    taint.add(s[1][0])
                    tdef[s[1][0]] = q
                    changed = True
                for pl in pls:
                    fl = [z for z in pl[1] if z[0] == "f"]
                    isk = pl[0] in keys and not fl or pl[0] == opt and (keyed and len(fl) == 1 or pair and len(fl) == 2 and fl[1][1] == 0)
                    if pair and pl[0] in pairs_of(f, opt) and len(fl) == 1 and fl[0][1] == 0:
                        isk = True
                    if isk and s[2][0] in ("use", "ref") and s[1][0] not in keys:
                        keys.add(s[1][0])
                        changed = True
                if s[2][0] == "bin" and s[2][1] == "Eq" and any(pl[0] in keys for pl in pls):
                    eqkey = True
            tt = bl["t"]
            if tt[0] == "call" and q != n:
                hit = [a for a in tt[2] if any(pl[0] in taint for pl in all_places(a))]
                if hit:
                    m = plain(tt[1].get("name", "")).split("::")[-1] if isinstance(tt[1], dict) else ""
                    if m in ("eq",) and any(pl[0] in keys for a in tt[2] for pl in all_places(a)):
                        eqkey = True
                    if tt[3][0] not in taint:
                        taint.add(tt[3][0])
                        tdef[tt[3][0]] = q
                        changed = True
                    if m in ("deref", "as_str", "as_ref", "borrow", "clone", "to_owned", "to_string") and any(pl[0] in keys for a in tt[2] for pl in all_places(a)) and tt[3][0] not in keys:
                        keys.add(tt[3][0])
                        changed = True
                    # pushed into something that lives outside
                    if m in ("push", "push_back", "push_front", "push_str", "extend", "insert_str", "append") and tt[2][0][0] in ("m", "p") and tt[2][0] not in hit:
                        r = f.root(tt[2][0][1])
                        if SEQ.search(f.ts(r[0])) or r[1]:
                            useq.setdefault(r, q)
    if eqkey:
        return res
    # values decided by the first or last element
    outside = set(range(len(B))) - body
    for l in sorted(taint - {opt}):
        q = tdef.get(l)
        if q is None:
            continue
        if l == 0 and q in early_only | body:
            if plain_flag(f, 0, region, taint):
                continue
            res.append(("it answers with an element of an iteration whose order is unspecified", l))
            break
        ds = f.defs.get(l, ())
        if q in body and any(n2 not in body for n2, _, _ in ds) or len([x for x in ds if x[0] in body]) and live_after(f, l, body, after_none | early_only):
            if f.ts(l).startswith("&mut") or not live_after(f, l, body, after_none | early_only):
                continue
            if any(n2 not in body for n2, _, _ in ds) and not read_in(f, l, body):
                res.append(("the last element of an iteration whose order is unspecified decides what it goes on with", l))
                break
    return res[:1]


def pairs_of(f, opt):
    return {l for l, ds in f.defs.items() for n, pr, r in ds if not pr and r[0] == "use" and r[1][0] in ("m", "p") and isinstance(r[1][1], list) and r[1][1][0] == opt
            and len([z for z in r[1][1][1] if z[0] == "f"]) == 1}


def plain_flag(f, l, region, taint):
    """assigned only constants"""
    for n, pr, r in f.defs.get(l, ()):
        if n in region:
            if r[0] == "call" or any(pl[0] in taint for pl in all_places(r)):
                return False
    return True


def read_in(f, l, body):
    for q in body:
        for s in f.b["blocks"][q]["s"]:
            if s[0] == "=" and mentions_local(s[2], l):
                return True
        t = f.b["blocks"][q]["t"]
        if t[0] == "call" and any(mentions_local(a, l) for a in t[2]) or t[0] == "switch" and mentions_local(t[1], l):
            return True
    return False


def live_after(f, l, body, blocks):
    return read_in(f, l, blocks - body)
