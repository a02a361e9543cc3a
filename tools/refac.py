"""refac.py FILE [NAMES]: FILE defines R = {name: [(file, old, new), ...]} of edits that keep the behaviour; everything must stay quiet"""
import sys, os, subprocess, importlib.util, concurrent.futures as cf
def work(slot, name, edits):
    S = "/tmp/ref"+os.environ.get("TAG","")+"%d/repo" % slot
    if not os.path.exists(S):
        os.makedirs("/tmp/ref"+os.environ.get("TAG","")+"%d" % slot)
        subprocess.check_call("mkdir %s; cd /repo && git ls-files -z | xargs -0 cp --parents -t %s; cp -r --parents resources/. %s 2>/dev/null; true" % (S, S, S), shell=True)
    subprocess.check_call("cd /repo && cp --parents $(git ls-files 'src/*.rs' | grep -v generated/metadata) %s" % S, shell=True)
    for f, o, n in edits:
        p = os.path.join(S, f)
        t = open(p).read()
        if t.count(o) != 1:
            return name, "EDIT %d matches of %r" % (t.count(o), o[:80])
        open(p, "w").write(t.replace(o, n))
    e = dict(os.environ, SA_REPO=S, SA_BUILD="/tmp/ref"+os.environ.get("TAG","")+"%d/build" % slot)
    r = subprocess.run([sys.executable, "/verif/tools/sweep.py"], cwd="/verif", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return name, r.stdout.decode("utf8", "replace")
def main():
    sp = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    names = sys.argv[2:] or list(m.R)
    import queue
    N = int(os.environ.get("SLOTS", "3"))
    q = queue.Queue()
    for i in range(N): q.put(i)
    def go(n):
        s = q.get()
        try: return work(s, n, m.R[n])
        finally: q.put(s)
    with cf.ThreadPoolExecutor(N) as ex:
        for n, o in ex.map(go, names):
            quiet = "VIOL" not in o and "BUILD" not in o and "EDIT" not in o and "Traceback" not in o
            print("==", n, "quiet" if quiet and "UNDECIDED" not in o else ("quiet, undecided" if quiet else "ALARM"))
            if not quiet or "UNDECIDED" in o: print(o[:3000])
            sys.stdout.flush()
if __name__ == "__main__": main()
