import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, p14, big

NAMES = ["a", "b", "x", "l", "m", "nope"]


def val(rng):
    return rng.choice([str(rng.randint(0, 99)), wl.value(rng, 1), "(list 1 2 3)", "(list (list 1 2) 3)", "(do (println \"once\") (rval 5))", "(+ 1 x)", "l", "nil", "(first l)", "(nth 1 l)", "(len m)", "(no-fn)", "(/ 1 0)"])


def target(rng, d=2):
    k = rng.randint(0, 9)
    l = rng.choice(["l", "l", "m", "(list 1 2)", "(id l)", "(get)"]) if d < 2 or rng.random() < 0.7 else "(rval %s)" % target(rng, d - 1)
    if k <= 2:
        return "(nth %s %s)" % (rng.choice(["0", "1", "2", "-1", "7", "(- (len l) 1)", "(nth 0 '(1))", "\"a\"", "1.0"]), l)
    if k <= 4:
        return "(%s %s)" % (rng.choice(["first", "last", "car"]), l)
    if k <= 7:
        return rng.choice(NAMES)
    if k == 8:
        return rng.choice(["(acc)", "(acc2 l)", "(sym \"a\")", "'a", "\"x\"", "5", "(len l)", "(rest l)", "nil", "(cell l)"])
    return "(nth %d (rval (nth %d m)))" % (rng.randint(0, 2), rng.randint(0, 2))


def op(rng):
    k = rng.randint(0, 11)
    if k <= 5:
        return "(setf %s %s)" % (target(rng), val(rng))
    if k == 6:
        return "(println (setf %s %s))" % (target(rng), val(rng))
    if k == 7:
        return "(defn f (x) (do (setf %s %s) (setf x 7) (println x) (setf %s %s)))  (f 1)" % (target(rng), val(rng), rng.choice(NAMES), val(rng))
    if k == 8:
        return "(defn k () (do (def n 0) (lambda () (setf n (+ n 1))))) (def c (k)) (c) (println (c) (c))"
    if k == 9:
        return "(map (lambda (e) (setf %s e)) (list 4 5 6))" % target(rng)
    if k == 10:
        return "(setf %s (setf %s %s))" % (target(rng), target(rng), val(rng))
    return rng.choice(["(def l2 l) (setf (first l2) 42)", "(def m (list l l))", "(def l (list 1 2 3 4))", "(setf (nth 0 l) l2)", "(println (first l) (last l) (nth 0 l))", "(def a 1)", "(delvar 'b)", "(setf)", "(setf a)", "(setf a 1 2)", "(println (need-l-value))"])


ALL = "(println a x l m l2 (first l) (need-l-value))"


def make(rng, i):
    codes = ["(def a 1) (def b 2) (def x 3) (def l (list 1 2 3)) (def l2 (list 9)) (def m (list (list 1 2) (list 3 4) l)) (defn id (q) (rval q)) (defn get () (rval l)) (defn acc () (first l)) (defn acc2 (z) (nth 1 z)) (defn cell (z) (last z))"]
    for _ in range(rng.randint(4, 12)):
        codes.append(" ".join(op(rng) for _ in range(rng.randint(1, 3))))
        codes.append(ALL)
    return Case(codes)


def go():
    c = Check("P33", rule="histories of assignments to names, elements, nested elements, through functions, closures and callbacks, with valid and invalid targets, positions and values with side effects; programs which hide and assign the same names in nested functions and closures; all variables printed after each step; compared with the model")
    c.compare(generate(make, c.n(3000), c.label("setf")), kind="assign")
    c.compare(generate(lambda rng, i: Case(p14.Sc(rng).program()), c.n(1200), c.label("names")), kind="names")
    c.compare(generate(big.assign, c.n(200), c.label("big assign")), kind="big")
    c.compare(generate(big.lists, c.n(100), c.label("big lists")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
