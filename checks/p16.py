import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import gen


class O:
    """programs in which every part has an observable effect"""

    def __init__(self, rng, faults=0.0):
        self.r, self.k, self.faults = rng, 0, faults

    def t(self, x):
        self.k += 1
        if self.r.random() < self.faults:
            return self.r.choice(["(t%d)" % self.k, "(/ (t %d 1) 0)" % self.k, "(no-fn (t %d 5))" % self.k, "(nth (t %d 9) (list 1))" % self.k])
        return "(t %d %s)" % (self.k, x)

    def b(self, d):
        r = self.r
        k = r.randint(0, 9)
        if d <= 0 or k <= 3:
            return self.t(r.choice(["#t", "#f"]))
        if k == 4:
            return "(%s %s)" % (r.choice(["and", "&&"]), " ".join(self.b(d - 1) for _ in range(r.randint(0, 4))))
        if k == 5:
            return "(%s %s)" % (r.choice(["or", "||"]), " ".join(self.b(d - 1) for _ in range(r.randint(0, 4))))
        if k == 6:
            return "(not %s)" % self.b(d - 1)
        if k == 7:
            return "(%s %s %s)" % (r.choice(["<", ">", "==", "!=", "<=", "equal"]), self.i(d - 1), self.i(d - 1))
        if k == 8:
            return "(if %s %s %s)" % (self.b(d - 1), self.b(d - 1), self.b(d - 1))
        return self.t("(== 1 %s)" % self.i(d - 1))

    def i(self, d):
        r = self.r
        k = r.randint(0, 17)
        if d <= 0 or k <= 2:
            return self.t(str(r.randint(0, 9)))
        if k <= 4:
            return "(%s %s)" % (r.choice(["+", "-", "*", "add", "sub"]), " ".join(self.i(d - 1) for _ in range(r.randint(1, 4))))
        if k == 5:
            return "(if %s %s%s)" % (self.b(d - 1), self.i(d - 1), " " + self.i(d - 1))
        if k == 6:
            return "(do %s %s)" % (" ".join(self.s(d - 1) for _ in range(r.randint(0, 3))), self.t(str(r.randint(0, 9))))
        if k == 7:
            return "(%s %s)" % (r.choice(["f1", "f1"]), self.i(d - 1))
        if k == 8:
            return "(f2 %s %s)" % (self.i(d - 1), self.i(d - 1))
        if k == 9:
            return "(apply (lambda (a b) (+ a %s b)) (list %s %s))" % (self.i(d - 2), self.i(d - 1), self.i(d - 1))
        if k == 10:
            return "(reduce (lambda (a b) (+ a b %s)) (list %s %s) %s)" % (self.i(d - 2), self.i(d - 1), self.i(d - 1), self.i(d - 1))
        if k == 11:
            return "(len (map (lambda (a) %s) (list %s %s)))" % (self.i(d - 2), self.i(d - 1), self.i(d - 1))
        if k == 12:
            return "(setf g1 %s)" % self.i(d - 1)
        if k == 13:
            return "(f3 %s)" % self.i(d - 1)
        if k == 14:
            return "(first (list %s %s))" % (self.i(d - 1), self.i(d - 1))
        if k == 15:
            return "(nth (rval 0) (list %s))" % self.i(d - 1)
        if k == 16:
            return "(em %s %s)" % (self.i(d - 1), self.i(d - 1))
        return "(eval %s)" % ("'" + self.i(d - 1))

    def s(self, d):
        r = self.r
        k = r.randint(0, 17)
        if d <= 0 or k <= 1:
            return "(println %s)" % self.i(d - 1)
        if k == 2:
            return "(if %s %s)" % (self.b(d - 1), self.s(d - 1))
        if k == 3:
            return "(if %s %s %s)" % (self.b(d - 1), self.s(d - 1), self.s(d - 1))
        if k == 4:
            self.k += 1
            n = "n%d" % self.k
            return "(do (def %s 0) (while (< %s %s) (do (setf %s (+ %s 1)) %s)))" % (n, self.t(n), r.randint(0, 3), n, n, self.s(d - 1))
        if k == 5:
            self.k += 1
            return "(def d%d %s)" % (self.k, self.i(d - 1))
        if k == 6:
            return "(setf (nth %s lst) %s)" % (self.t("0"), self.i(d - 1))
        if k == 7:
            return "(println (quote (t 1 2)) '(t 3 4) %s)" % self.i(d - 1)
        if k == 8:
            return "(println `(a ,%s (b ,%s) ,@(list %s %s) (t 7 8)))" % (self.i(d - 1), self.i(d - 1), self.i(d - 1), self.i(d - 1))
        if k == 9:
            return "(dict-set dic %s %s)" % (self.i(d - 1), self.i(d - 1))
        if k == 10:
            return "(defn f4 (a) (do %s (+ a %s)))" % (self.s(d - 1), self.i(d - 2))
        if k == 11:
            return "(def fx (lambda (a) %s))" % self.i(d - 1)
        if k == 12:
            return "(println %s %s %s)" % (self.i(d - 1), self.b(d - 1), self.i(d - 1))
        if k == 13:
            return "(push %s lst)" % self.i(d - 1)
        if k == 14:
            return "(evalstr %s)" % wl.lit(self.s(d - 1))
        if k == 15:
            return "(do %s %s)" % (self.s(d - 1), self.s(d - 1))
        if k == 16:
            return "(string %s \"x\" %s)" % (self.i(d - 1), self.i(d - 1))
        return "(println (list %s %s))" % (self.i(d - 1), self.i(d - 1))


PRE = "(defn t (k v) (do (print k \"\") (rval v))) (def g1 0) (def lst (list 1 2)) (def dic (make-dict)) (defn f1 (a) (do (print \"f1\") (+ a 1))) (defn f2 (a b) (do (print \"f2\") (- a b))) (defn f3 (a) (do (print \"f3\") (if (> a 4) (return a)) (print \"x\") (rval 0))) (define-macro-eval em (p q) (+ q p q))"


def make(rng, i):
    o = O(rng, rng.choice([0, 0, 0.02, 0.05]))
    return Case([PRE] + [" ".join(o.s(4) for _ in range(rng.randint(1, 3))) for _ in range(rng.randint(1, 3))] + ["(println g1 lst dic)"])


def go():
    c = Check("P16", rule="random nestings of calls, conditions, logical operators, loops, definitions, assignments, templates, macros, callbacks and evaluations in which every leaf prints an own number; the complete log of effects, values and errors is compared with the order predicted by the model")

    def per_case(case, r):
        c.stat("effects logged", sum(len(y["o"].split()) for y in r.r))
    c.compare(generate(make, c.n(4000), c.label("order")), kind="order", per_case=per_case)
    c.compare(generate(big.control, c.n(200), c.label("big control")), kind="big")
    c.compare(generate(big.params, c.n(60), c.label("big params")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
