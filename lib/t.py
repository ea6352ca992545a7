"""ad-hoc: t.py [variant] file-with-programs-separated-by-lines  (development aid)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, runner
def go(progs, variant="asan", **kw):
    exe = build.build(variant)
    reqs = [runner.ev(*(p if isinstance(p, (tuple, list)) else (p,)), **kw) for p in progs]
    for p, r in zip(progs, runner.run(exe, reqs)):
        if r is None: print(repr(p), "NOT RUN"); continue
        if r.rec is None or r.crash:
            print(repr(p), "=> CRASH", runner.crash_summary(r)); continue
        print(repr(p), "=>", " ;; ".join(((x["v"] if x["k"]=="ok" else "%s[%s @%s:%s-%s %s]"%(x["k"],x["m"],x.get("line"),x.get("start"),x.get("stop"),x.get("mod"))) + (" out=%r" % x["o"] if x.get("o") else "")) for x in r.r))
if __name__ == "__main__":
    v = sys.argv[1]
    go([l.rstrip("\n").replace("\\n","\n") for l in sys.stdin if l.strip()], v)
