"""plant_batch.py FILE [IDS]: FILE defines P = {id: dict(prop, edits, probe, needs, breaks)}; the probe's output on the unchanged tree
becomes what the demonstration expects"""
import importlib.util, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
sp = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
HEAD = '''#![allow(unused)]
use rlibphonenumber::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
fn num(cc: i32, n: u64) -> PhoneNumber {
    let mut p = PhoneNumber::new();
    p.set_country_code(cc);
    p.set_national_number(n);
    p
}
fn show(p: &PhoneNumber) -> String {
    format!("{} {} {:?} {:?} {:?}", p.country_code(), p.national_number(), p.italian_leading_zero, p.number_of_leading_zeros, p.extension)
}
fn probe(u: &PhoneNumberUtil) -> Vec<String> {
    let mut out: Vec<String> = vec![];
%s
    out
}
'''
def run(code):
    T = plant.PD + "/probe"
    os.makedirs(T + "/src", exist_ok=True)
    open(T + "/src/main.rs", "w").write(code)
    subprocess.check_call("cp %s/Cargo.lock %s/" % (plant.S, T), shell=True)
    open(T + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\nrlibphonenumber = { path = "%s" }\n[workspace]\n' % plant.S)
    return plant.sh("export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings CARGO_TARGET_DIR=%s/ptarget; unset RUSTC_WRAPPER; cargo build --offline --quiet && timeout 100 %s/ptarget/debug/demo" % (plant.PD, plant.PD), T)
for i in sys.argv[2:] or list(m.P):
    s = m.P[i]
    plant.scratch()
    rc, o = run(HEAD % s["probe"] + 'fn main() { for l in probe(&PHONE_NUMBER_UTIL) { println!("{}", l.escape_default()); } }\n')
    if rc:
        print(i, "PROBE FAILS", rc, o[-1500:]); continue
    want = o.splitlines()
    try:
        plant.make(i, s["prop"], {"edits": s["edits"], "needs": s["needs"], "breaks": s["breaks"],
            "main": HEAD % s["probe"] + "const WANT: &[&str] = &[\n%s];\nfn main() {\n    let got = probe(&PHONE_NUMBER_UTIL);\n    let want: Vec<String> = WANT.iter().map(|s| s.to_string()).collect();\n    assert_eq!(got, want);\n}\n" % "".join('    "%s",\n' % l for l in want)})
    except AssertionError as e:
        print(i, "EDIT", e); continue
    print(i, "expects", want[:6])
    plant.verify(i)
    plant.check(i, [])
