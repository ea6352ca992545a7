import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big

N = ["a", "b", "c", "x", "f", "first", "+", "a-long-name-of-a-variable", "B", "list"]


def val(rng):
    return rng.choice([str(rng.randint(0, 99)), wl.value(rng, 2), "(list 1 \"s\")", "(lambda (x) x)", "(make-dict)", "nil", "\"text\"", "+", "a", "b", "'sym", "(nop)", wl.lit("long text " * 6)])


def st(rng, d=2):
    n = rng.choice(N[:7] if rng.random() < 0.9 else N)
    k = rng.randint(0, 15)
    if k <= 3:
        return "(def %s %s)" % (n, val(rng))
    if k == 4:
        return "(gdef %s %s)" % (n, val(rng))
    if k == 5:
        return "(setf %s %s)" % (n, val(rng))
    if k <= 7:
        return "(println (delvar '%s))" % rng.choice(N)
    if k == 8:
        return "(vars)"
    if k == 9 and d:
        return "(%s %s (a x) (do %s %s (vars) (println a x)))" % (rng.choice(["defn", "gdefn"]), rng.choice(["f", "g", "h"]), st(rng, d - 1), st(rng, d - 1))
    if k == 10:
        return "(%s %s %s)" % (rng.choice(["f", "g", "h"]), val(rng), val(rng))
    if k == 11:
        return "(println %s %s)" % (n, rng.choice(N))
    if k == 12:
        return "(defn z (a) (do (def b a) (println (delvar 'b) b) (println (delvar 'a) a) (def b 5) (vars))) (z 1)"
    if k == 13:
        return rng.choice(["(def + -) (println (+ 5 3))", "(defn first (l) (last l)) (println (first (list 1 2)))", "(gdef len (lambda (x) 77)) (println (len nil))", "(delvar 'len) (println (len nil))", "(println (delvar 'println)) (println 5)"])
    if k == 14:
        return rng.choice(["(def \"strname\" 5) (println strname)", "(def (sym \"dyn\") 5) (println dyn)", "(delvar \"a\")", "(def 5 1)", "(def)", "(def a)", "(gdef a)", "(delvar)", "(delvar 5)", "(def a b c)", "(def a (no-fn))"])
    return "(println (+ 1 2) (len (list 1 2)))"


def make(rng, i):
    return Case([" ".join(st(rng) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(4, 14))] + ["(vars)"])


def go():
    c = Check("P34", rule="histories of local and global definitions, redefinitions (also of builtins), deletions, assignments and listings, at top level and in functions, with names that meet again; compared with the model of variable tables")
    c.compare(generate(make, c.n(3000), c.label("vars")), kind="variables")
    c.compare(generate(big.variables, c.n(150), c.label("big variables")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
