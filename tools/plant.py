"""plant.py new ID PROP   (reads a JSON spec on stdin: edits [[file, old, new]...], main (Rust main body), needs, breaks)
   plant.py verify ID     builds and tests it in a scratch copy, runs the demonstration on both trees
   plant.py check ID [PROPS...]  runs checks against the scratch copy"""
import json, os, subprocess, sys, shutil
V = "/verif/seeded"
PD = os.environ.get("PLANT_DIR", "/tmp/plant")
S = PD + "/repo"
DEMO = '''#!/bin/bash
# exit 0 when the property holds on what this demonstration tries, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/main.rs" "$T/src/main.rs"
cp Cargo.lock "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[dependencies]
rlibphonenumber = { path = "$PWD" }
[workspace]
X
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH" CARGO_NET_OFFLINE=true
unset RUSTC_WRAPPER
export RUSTFLAGS=-Awarnings
CARGO_TARGET_DIR="$T/target" cargo build --offline --quiet --manifest-path "$T/Cargo.toml" || exit 2
timeout 120 "$T/target/debug/demo"
'''
def sh(c, cwd, env=None, t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return r.returncode, r.stdout.decode("utf8", "replace")
def scratch(reset=True):
    if not os.path.exists(S):
        os.makedirs(PD, exist_ok=True)
        subprocess.check_call(["cp", "-a", "/repo", S])
    if reset:
        h = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"]).decode().strip()
        subprocess.check_call("git fetch -q /repo HEAD; git checkout -qf %s; git checkout -q -- ." % h, shell=True, cwd=S)
ENV = ". /opt/vp/env.sh; "
def new(i, prop):
    sp = json.load(sys.stdin) if not os.path.exists(i) else None
    make(i, prop, sp)
def make(i, prop, sp):
    scratch()
    for f, o, n in sp["edits"]:
        p = os.path.join(S, f)
        t = open(p).read()
        assert t.count(o) == 1, (i, f, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    d = os.path.join(V, i)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.check_output(["git", "diff"], cwd=S)
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/main.rs", "w").write(sp["main"])
    json.dump({"property": prop, "needs": sp["needs"], "what_it_breaks": sp["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    sh("git checkout -q -- .", S)
def tests():
    # the same commands as /opt/vp/test.sh, in the scratch copy
    rc, o = sh(ENV + "cargo test --workspace --all-targets --no-run --offline 2>&1 | tail -30", S)
    if "error" in o and "could not compile" in o:
        return "BUILD FAILED\n" + o
    sh("rm -rf " + S + "/target/vp; mkdir -p target/vp", S)
    rc, o = sh(ENV + "cargo nextest run --workspace --lib --bins --tests --offline --no-fail-fast --no-tests=pass --test-threads 8 --tool-config-file vp:" + PD + "/nextest.toml --profile vp > target/vp/nextest.log 2>&1; python3 /opt/vp/results.py target/vp/out.json junit:target/vp/junit.xml", S)
    r = json.load(open(S + "/target/vp/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    miss = [b for b in base if b not in r["passed"] and "doc" not in b]
    return "tests: %d passed, missing %s" % (len(r["passed"]), miss[:5])
def verify(i):
    d = os.path.join(V, i)
    scratch()
    open(PD + "/nextest.toml", "w").write(open("/opt/vp/nextest.toml").read().replace("/repo/target", S + "/target"))
    rc0, o0 = sh("bash %s/demo.sh" % d, S)
    rc, o = sh("git apply %s/patch.diff" % d, S)
    if rc:
        print(i, "DOES NOT APPLY", o); return
    t = tests()
    rc1, o1 = sh("bash %s/demo.sh" % d, S)
    ok = rc0 == 0 and rc1 not in (0, 2) and t.endswith("missing []")
    print(i, "OK" if ok else "BAD", "demo", rc0, rc1, t, "" if rc0 == 0 else o0[-600:], "|", o1.strip()[-200:])
    sh("git checkout -q -- .", S)
def check(i, props):
    d = os.path.join(V, i)
    scratch()
    rc, o = sh("git apply %s/patch.diff" % d, S)
    assert rc == 0, o
    if not props:
        props = [json.load(open(d + "/meta.json"))["property"]]
    for p in props:
        e = dict(os.environ, SA_REPO=S, SA_BUILD=PD + "/build", SA_EVID=PD + "/evid")
        rc, o = sh("python3 -m sa.check %s" % p, "/verif", e)
        print(i, p, "caught" if rc == 1 and "VIOLATION property=%s " % p in o else "MISSED rc=%d" % rc, o[:300].replace("\n", " / "))
    sh("git checkout -q -- .", S)
if __name__ == "__main__":
    a = sys.argv
    if a[1] == "new": new(a[2], a[3])
    elif a[1] == "verify":
        for i in a[2:]: verify(i)
    elif a[1] == "check": check(a[2], a[3:])
    elif a[1] == "all":
        for i in sorted(os.listdir(V)):
            if os.path.exists(V + "/" + i + "/patch.diff"): check(i, [])
