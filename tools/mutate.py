"""mutate.py SEED N [FILE...]: N random one-token changes of non-test source; prints those that no obligation and no extra rule reports"""
import sys, os, re, random, subprocess, queue, concurrent.futures as cf
FILES = ["src/phonenumberutil/phonenumberutil_internal.rs", "src/phonenumberutil/phonenumberutil.rs", "src/phonenumberutil/helper_functions.rs",
         "src/phonenumberutil/phone_number_regexps_and_mappings.rs", "src/phonenumberutil/helper_constants.rs", "src/phonenumberutil/helper_types.rs",
         "src/regex_util.rs", "src/regex_based_matcher.rs", "src/regexp_cache.rs", "src/string_util.rs", "src/i18n.rs", "src/phonenumberutil/enums.rs",
         "src/phonenumberutil/comparisons.rs", "src/generated/proto/phonenumber_ext.rs", "src/metadata.rs", "src/errors.rs"]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "),
       (r"if !", "if "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "3"), (r" \+ ", " - "), (r" - ", " + "),
       (r"\bMobile\b", "FixedLine"), (r"\bFixedLine\b", "Mobile"), (r"\bInternational\b", "National"), (r"\bNational\b", "International"), (r"\bE164\b", "RFC3966"),
       (r"TooShort\b", "TooLong"), (r"TooLong\b", "TooShort"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"),
       (r"\.next\(\)", ".last()"), (r"\.first\(\)", ".last()"), (r"starts_with\(", "ends_with("), (r"full_match\(", "matches_start("), (r"matches_start\(", "full_match("),
       (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bexact_match\b", "nsn_match"), (r"push_front", "push_back"), (r"\.extension\(\)", ".raw_input()"),
       (r"\breturn true", "return false"), (r"continue;", "break;"), (r"break;", "continue;"), (r"\.contains\(", ".starts_with("), (r"fixed_line\b", "mobile"), (r"\bpager\b", "uan")]


def sites():
    out = []
    for f in FILES:
        p = "/repo/" + f
        if not os.path.exists(p):
            continue
        text = open(p).read()
        cut = text.find("#[cfg(test)]")
        for i, ln in enumerate(text.split("\n")):
            if ln.strip().startswith("//") or ln.strip().startswith("#[") or ln.strip().startswith("use "):
                continue
            code = ln.split(" //")[0]
            for o, n in OPS:
                for m in re.finditer(o, code):
                    out.append((f, i, m.start(), m.end(), n))
    return out


def work(slot, mu):
    f, i, a, b, n = mu
    S = "/tmp/mut%d/repo" % slot
    if not os.path.exists(S):
        os.makedirs("/tmp/mut%d" % slot)
        subprocess.check_call("mkdir %s; cd /repo && git ls-files -z | xargs -0 cp --parents -t %s; cp -r --parents resources/. %s 2>/dev/null; true" % (S, S, S), shell=True)
    subprocess.check_call("cd /repo && cp --parents $(git ls-files 'src/*.rs' | grep -v generated/metadata) %s" % S, shell=True)
    p = os.path.join(S, f)
    ls = open(p).read().split("\n")
    old = ls[i]
    ls[i] = old[:a] + n + old[b:]
    open(p, "w").write("\n".join(ls))
    e = dict(os.environ, SA_REPO=S, SA_BUILD="/tmp/mut%d/build" % slot)
    try:
        r = subprocess.run([sys.executable, "/verif/tools/sweep.py"], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        o = r.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        o = "UNDECIDED timeout"
    tag = "CRASH" if "obligations" not in o and "BUILD" not in o else "nobuild" if "BUILD" in o else "caught" if "VIOL" in o else "undecided" if "UNDECIDED" in o else "MISSED"
    return tag, "%s:%d %s  ==> %s" % (f.split("/")[-1], i + 1, old.strip()[:90], ls[i].strip()[:110]), o


def main():
    rnd = random.Random(int(sys.argv[1]))
    ss = [s for s in sites() if len(sys.argv) < 4 or any(x in s[0] for x in sys.argv[3:])]
    rnd.shuffle(ss)
    q = queue.Queue()
    N = int(os.environ.get("SLOTS", "3"))
    for i in range(N):
        q.put(i)

    def go(m):
        s = q.get()
        try:
            return work(s, m)
        finally:
            q.put(s)
    print(len(ss), "sites")
    tot = {}
    with cf.ThreadPoolExecutor(N) as ex:
        for tag, d, o in ex.map(go, ss[:int(sys.argv[2])]):
            tot[tag] = tot.get(tag, 0) + 1
            if tag != "nobuild":
                print(tag, d)
            if tag == "undecided":
                print("     ", [l for l in o.split("\n") if "UNDEC" in l][:2])
            sys.stdout.flush()
    print(tot)


if __name__ == "__main__":
    main()
