import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import gen


class B:
    """functions with nested blocks, loops, conditions, callbacks and returns"""

    def __init__(self, rng):
        self.r, self.k = rng, 0

    def n(self):
        self.k += 1
        return self.k

    def val(self):
        r = self.r
        return r.choice(["%d" % self.n(), "%d" % self.n(), "(+ x %d)" % self.n(), "x", "(list x %d)" % self.n(), "\"s\"", "nil", "(h x)", "(rval x)", "(do (println \"v%d\") (rval %d))" % (self.n(), self.k)])

    def cond(self):
        return self.r.choice(["#t", "#f", "(> x 2)", "(== x %d)" % self.r.randint(0, 5), "(< i 2)", "(and (> x 0) (< x 3))", "(ret-bool x)", "(not (ret-bool x))", "(seen %d x)" % self.n(), "(seen %d x)" % self.n(), "(do (setf x (+ x 1)) (seen %d (- x 4)))" % self.n()])

    def st(self, d, fn):
        r = self.r
        k = r.randint(0, 20)
        if d <= 0 or k <= 2:
            return "(println %d x i)" % self.n()
        if k <= 4 and fn:
            return "(return %s)" % self.val()
        if k <= 6:
            return "(if %s %s)" % (self.cond(), self.st(d - 1, fn))
        if k <= 8:
            return "(if %s %s %s)" % (self.cond(), self.st(d - 1, fn), self.st(d - 1, fn))
        if k <= 10:
            j = "j%d" % self.n()
            if r.random() < 0.4:
                return "(do (setf budget %d) (while (more %d) (do %s %s)) (println \"b\" budget))" % (r.randint(0, 5), self.n(), self.st(d - 1, fn), self.st(d - 2, fn))
            if r.random() < 0.4:
                # a condition with effects
                return "(do (def %s %d) (while (do (setf %s (- %s 1)) (println \"?\" %s) (> %s 0)) (do %s %s)) (println \"j\" %s))" % (j, r.randint(1, 5), j, j, j, j, self.st(d - 1, fn), self.st(d - 2, fn), j)
            return "(do (def %s 0) (while (< %s %d) (do (setf %s (+ %s 1)) %s %s)))" % (j, j, r.randint(0, 4), j, j, self.st(d - 1, fn), self.st(d - 2, fn))
        if k == 11:
            return "(%s %s %s)" % (r.choice(["do", "begin"]), self.st(d - 1, fn), self.st(d - 1, fn))
        if k == 12:
            return "(println (map (lambda (x) (do %s (println \"m%d\") (rval x))) (list 1 2 3)))" % (self.st(d - 1, True), self.n())
        if k == 13:
            return "(println (apply (lambda (x) (do %s (list \"a\" x))) (list %s)))" % (self.st(d - 1, True), r.randint(0, 5))
        if k == 14:
            return "(println (reduce (lambda (x acc) (do %s (+ x acc))) (list 1 2) 0))" % self.st(d - 1, True)
        if k == 15:
            return "(println (h %s))" % r.randint(0, 5)
        if k == 16:
            return "(evalstr %s)" % wl.lit(self.st(d - 1, fn))
        if k == 17:
            return "(eval '%s)" % self.st(d - 1, fn)
        if k == 18:
            return "(def i (+ i 1))"
        if k == 19:
            return "(setf x (+ x 1))"
        if k == 20 and fn:
            return r.choice(["(println (return %s))", "(list 1 (return %s) (println \"after\"))", "(def q (return %s))", "(h (return %s))", "(if (return %s) 1 2)", "(setf x (return %s))"]) % self.val()
        return "(println \"r\" (rec %d))" % r.randint(0, 4)

    def fn(self, name):
        body = " ".join(self.st(3, True) for _ in range(self.r.randint(1, 4)))
        return "(defn %s (x) (do (def i 0) %s %s))" % (name, body, self.r.choice(["(list \"end\" x)", "(return (list \"re\" x))", "(println \"last\")", "(if %s (return 1) 2)" % self.cond(), "(while (> x 0) (do (setf x (- x 1)) (if (== x 1) (return \"w\"))))"]))


PRE = ["(def i 0) (def x 3) (def budget 3) (defn more (k) (do (println \"more\" k budget) (setf budget (- budget 1)) (> budget 0))) (defn seen (k q) (do (println \"seen\" k q) (< q 3))) (defn ret-bool (q) (do (if (> q 2) (return #t)) (rval #f))) (defn h (x) (do (if (> x 3) (return (list \"big\" x))) (while #t (do (setf x (+ x 1)) (if (> x 5) (return x))))))"
       " (defn rec (n) (do (if (== n 0) (return \"base\")) (println \"down\" n) (def q (rec (- n 1))) (println \"up\" n q) (if (== n 2) (return (list n q))) (list \"t\" n q)))"]


def make(rng, i):
    b = B(rng)
    codes = list(PRE)
    for j in range(rng.randint(1, 3)):
        codes.append(b.fn("f%d" % j))
        codes.append(" ".join("(println \"=\" (f%d %d))" % (j, rng.randint(0, 6)) for _ in range(2)))
    codes.append(" ".join(b.st(3, rng.random() < 0.3) for _ in range(rng.randint(1, 3))))
    codes.append("(println \"still\" x i) (list (h 1) (rec 2))")
    if rng.random() < 0.3:
        codes.append("(println \"b\") (return %s) (println \"never\")" % b.val())
        codes.append("(println \"next\") (map (lambda (q) (h q)) (list 1 7))")
    return Case(codes)


def go():
    c = Check("P17", rule="functions with random nestings of conditions, loops, sequences, callbacks, evaluations, recursion and returns in every place (also inside of arguments), called with several arguments, followed by further calls and evaluations; output and values compared with the model")
    c.compare(generate(make, c.n(4000), c.label("flow")), kind="flow")
    c.compare(generate(big.control, c.n(200), c.label("big control")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
