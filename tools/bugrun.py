"""bugrun.py FILE [NAMES]: edits that break something; prints which checks say so"""
import sys, os, re, queue, importlib.util, concurrent.futures as cf
sys.path.insert(0, "/verif/tools")
import refac
def main():
    sp = importlib.util.spec_from_file_location("m", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    names = sys.argv[2:] or list(m.R)
    N = int(os.environ.get("SLOTS", "3")); B = int(os.environ.get("BASE", "10"))
    q = queue.Queue()
    for i in range(N): q.put(B + i)
    def go(n):
        s = q.get()
        try: return refac.work(s, n, m.R[n])
        except Exception as x: return n, "EXC %r" % x
        finally: q.put(s)
    with cf.ThreadPoolExecutor(N) as ex:
        for n, o in ex.map(go, names):
            v = sorted(set(re.findall(r"VIOL\w* (\S+)", o)))
            odd = [l for l in o.splitlines() if "EDIT" in l or "BUILD" in l or "Traceback" in l or "EXC" in l or "error" in l.lower()][:3]
            print("%-26s %s" % (n, " ".join(v)[:150] if v else "MISSED" + (" undecided" if "UNDECIDED" in o else "")), *odd, flush=True)
            if os.environ.get("FULL"): print(o[:2500])
main()
