"""Builds the MIR dumper and dumps the typed MIR of /repo's current working tree.

Nothing is written under /repo: cargo's target directory is /verif/.build/target.
The dump is cached under a key that covers every file that can influence it."""
import hashlib, json, os, subprocess, sys, fcntl, shutil, pickle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
BUILD = os.environ.get("SA_BUILD", os.path.join(VERIF, ".build"))
DESCEND = ("core::option,core::result,std::option,std::result,<std::option::Option,<std::result::Result,"
           "std::ops::ControlFlow,<std::ops::ControlFlow,std::cmp::,core::cmp::,<T as std::convert,<U as std::convert,"
           "std::convert::,<&T as std::convert,core::bool,<std::borrow::Cow,std::borrow::Cow,<T as std::string::SpecToString,"
           "std::ops::function,protobuf::MessageField,<protobuf::MessageField")


class BuildError(Exception):
    pass


def _run(cmd, cwd, env, what, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise BuildError("%s failed:\n%s" % (what, r.stdout.decode("utf8", "replace")[-3000:]))
    return r.stdout.decode("utf8", "replace")


def _env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.setdefault("HOME", "/root")
    for k in ("RUSTUP_TOOLCHAIN", "RUSTC_WRAPPER", "RUSTFLAGS", "CARGO_INCREMENTAL"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def _walk(d, suf=None):
    out = []
    for r, ds, fs in os.walk(d):
        ds[:] = [x for x in ds if x not in ("target", ".git")]
        out += [os.path.join(r, f) for f in fs if suf is None or f.endswith(suf)]
    return out


def source_files():
    fs = _walk(os.path.join(REPO, "src")) + _walk(os.path.join(REPO, "build"))
    fs += _walk(os.path.join(REPO, "resources"), ".proto")
    fs += [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs", "rust-toolchain", "rust-toolchain.toml",
                                           ".cargo/config.toml") if os.path.exists(os.path.join(REPO, f))]
    return fs


def driver():
    d = os.path.join(VERIF, "driver")
    key = _hash([os.path.join(d, "src/main.rs"), os.path.join(d, "Cargo.toml"), os.path.join(d, "Cargo.lock")])
    exe = os.path.join(BUILD, "driver/debug/mirdump")
    stamp = os.path.join(BUILD, "driver/stamp")
    env = _env()
    sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=env, stdout=subprocess.PIPE).stdout.decode().strip()
    env["LD_LIBRARY_PATH"] = sysroot + "/lib"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key):
        env2 = dict(env)
        env2["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
        _run(["cargo", "+nightly", "build", "--offline"], d, env2, "building the MIR dumper")
        with open(stamp, "w") as f:
            f.write(key)
    return exe, env, key


def dump():
    """-> path of the JSON dump for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, env, dkey = driver()
        key = hashlib.sha256((dkey + DESCEND + REPO + _hash(source_files())).encode()).hexdigest()[:24]
        ddir = os.path.join(BUILD, "dumps")
        os.makedirs(ddir, exist_ok=True)
        out = os.path.join(ddir, key + ".json")
        if os.path.exists(out):
            os.utime(out)
            return out
        tmp = out + ".tmp"
        if os.path.exists(tmp):
            os.remove(tmp)
        tgt = os.path.join(BUILD, "target")
        for sub in ("debug/build/rlibphonenumber", "debug/.fingerprint"):
            p = os.path.join(tgt, sub)
            if sub.endswith("fingerprint"):
                if os.path.isdir(p):
                    for x in os.listdir(p):
                        if x.startswith("rlibphonenumber-"):
                            shutil.rmtree(os.path.join(p, x))
            elif os.path.isdir(p):
                shutil.rmtree(p)
        env = dict(env, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=tmp, MIRDUMP_DESCEND=DESCEND)
        log = _run(["cargo", "+nightly", "check", "--offline", "--lib"], REPO, env, "type-checking /repo with the MIR dumper")
        if not os.path.exists(tmp):
            raise BuildError("the MIR dumper left no dump (cargo said: %s)" % log[-1500:])
        os.rename(tmp, out)
        olds = sorted((os.path.join(ddir, x) for x in os.listdir(ddir)), key=os.path.getmtime)
        for x in olds[:-6]:
            os.remove(x)
        return out


def spec_dump():
    """-> path of the JSON dump of the reference definitions in /verif/specs"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, env, dkey = driver()
        src = os.path.join(VERIF, "specs")
        key = hashlib.sha256((dkey + DESCEND + _hash(_walk(os.path.join(src, "src")) + [os.path.join(src, "Cargo.toml")])).encode()).hexdigest()[:24]
        ddir = os.path.join(BUILD, "specdumps")
        os.makedirs(ddir, exist_ok=True)
        out = os.path.join(ddir, key + ".json")
        if os.path.exists(out):
            return out
        tmp = out + ".tmp"
        tgt = os.path.join(BUILD, "spectarget")
        if os.path.isdir(tgt):
            shutil.rmtree(tgt)
        env = dict(env, CARGO_TARGET_DIR=tgt, RUSTC_WORKSPACE_WRAPPER=exe, MIRDUMP_OUT=tmp, MIRDUMP_DESCEND=DESCEND, MIRDUMP_CRATE="vspec")
        log = _run(["cargo", "+nightly", "check", "--offline", "--lib"], src, env, "type-checking the reference definitions")
        if not os.path.exists(tmp):
            raise BuildError("the MIR dumper left no dump of the reference definitions: %s" % log[-1500:])
        os.rename(tmp, out)
        for x in os.listdir(ddir):
            if x != key + ".json":
                os.remove(os.path.join(ddir, x))
        return out


def load():
    p = dump()
    with open(p) as f:
        return json.load(f)


if __name__ == "__main__":
    try:
        print(dump())
        print(spec_dump())
    except BuildError as e:
        print(e)
        sys.exit(3)
