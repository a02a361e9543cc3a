"""battery.py FILE PY [NAMES]: applies every edit set of FILE to a scratch copy of /repo and runs PY (with SA_REPO set) on it"""
import sys, os, subprocess, importlib.util
S, B = "/tmp/bat/repo", "/tmp/bat/build"
if not os.path.exists(S):
    os.makedirs("/tmp/bat")
    subprocess.check_call("mkdir %s; cd /repo && git ls-files -z | xargs -0 cp --parents -t %s; cp -r --parents resources/. %s 2>/dev/null; true" % (S, S, S), shell=True)
sp = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
for n in sys.argv[3:] or list(m.R):
    subprocess.check_call("cd /repo && cp --parents $(git ls-files 'src/*.rs' | grep -v generated/metadata) %s" % S, shell=True)
    for f, o, w in m.R[n]:
        p = os.path.join(S, f); x = open(p).read()
        assert x.count(o) == 1, (n, o)
        open(p, "w").write(x.replace(o, w))
    r = subprocess.run([sys.executable, sys.argv[2]], env=dict(os.environ, SA_REPO=S, SA_BUILD=B), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    print("==", n); print(r.stdout.decode()[-9500:])
