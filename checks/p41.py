import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import big



def st(rng, d=2):
    k = rng.randint(0, 13)
    v = lambda: wl.value(rng)
    if k <= 2:
        return "(trace %s)" % rng.choice(["#t", "#f", "#t"])
    if k <= 5:
        return "(%s %s)" % (rng.choice(["println", "print"]), " ".join(v() for _ in range(rng.choice([0, 1, 1, 2, 3]))))
    if k <= 8:
        return rng.choice(["(println (len (gettrace)))", "(def t (gettrace)) (list t)", "(gettrace)", "(print (gettrace))"])
    if k == 9 and d:
        return "(defn f (x) (do %s (print x) %s)) (f 1)" % (st(rng, d - 1), st(rng, d - 1))
    if k == 10:
        return "(map print (list %s %s))" % (v(), v())
    if k == 11:
        return "(evalstr \"(do (print 1) (trace %s) (print 2))\")" % rng.choice(["#t", "#f"])
    if k == 12:
        return "(def n 0) (while (< n %d) (do (setf n (+ n 1)) %s))" % (rng.randint(0, 6), st(rng, 0) if d else "(print n)")
    return rng.choice(["(trace 1)", "(trace)", "(no-fn)", "(print (no-fn))", "(trace nil)", "(gettrace)", "(list (trace #t) (gettrace) (trace #f))"]) if rng.random() < 0.4 else "(print %s)" % v()


def make(rng, i):
    return Case([" ".join(st(rng) for _ in range(rng.randint(1, 6))) + rng.choice(["", " (gettrace)", " (string (gettrace))"]) for _ in range(rng.randint(2, 6))] + ["(gettrace)"])


def go():
    c = Check("P41", rule="histories of switching the trace, printing values of all kinds, reading the trace, failing and nested evaluation over several evaluations of one environment")
    c.compare(generate(make, c.n(4000), c.label("trace")), kind="trace")
    c.compare(generate(big.traced, c.n(150), c.label("big traced")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
