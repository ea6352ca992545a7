import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import gen

POOL = ["a", "b", "c", "x"]


class Sc:
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.fns = []      # global functions: (name, count)

    def v(self):
        return self.r.choice(POOL)

    def val(self):
        self.k += 1
        return self.r.choice([str(self.k), self.v(), "(+ 1 %d)" % self.k, "(list %s)" % self.v(), "\"s%d\"" % self.k])

    def call(self):
        r = self.r
        k = r.randint(0, 5)
        if self.fns and k <= 3:
            n, c = r.choice(self.fns)
            return "(%s %s)" % (n, " ".join(self.val() for _ in range(c)))
        if k == 4:
            return "(if (> (len keep) %d) (apply (nth %d keep) (list %s)))" % (j := r.randint(0, 3), j, self.val())
        return "(map (lambda (%s) (do %s (list a b c x))) (list 1 2))" % (self.v(), self.stmt(0))

    def fn(self, d, kw=None):
        """a function expression or definition with a body that plays with the names"""
        r = self.r
        ps = r.sample(POOL, r.choice([0, 1, 1, 2]))
        body = [self.stmt(d - 1) for _ in range(r.randint(1, 4))]
        last = r.choice(["(list a b c x)", "(println \"e\" a b c x)", self.fn(d - 1) if d > 0 else "(list a b)", "(rval %s)" % self.v()])
        return "(%s (%s) (do %s %s))" % (kw or r.choice(["lambda", "fn"]), " ".join(ps), " ".join(body), last)

    def stmt(self, d):
        r = self.r
        k = r.randint(0, 15)
        if k <= 2:
            return "(def %s %s)" % (self.v(), self.val())
        if k <= 5:
            return "(setf %s %s)" % (self.v(), self.val())
        if k <= 7:
            return "(println \"p\" a b c x)"
        if k == 8 and d > 0:
            return "(push %s keep)" % self.fn(d)
        if k == 9 and d > 0:
            n = r.choice(["g", "h", "a"])
            return "(def %s %s) (if (== (typestr %s) \"Function\") (println \"l\" (apply %s (list %s))))" % (n, self.fn(d), n, n, self.val())
        if k == 10 and d > 0:
            ps = r.choice(["a", "b", "x"])
            return "(defn loc (%s) (do %s (list a b c x))) (println \"loc\" (loc %s))" % (ps, self.stmt(d - 1), self.val())
        if k == 11:
            return "(gdef %s %s)" % (self.v(), self.val())
        if k == 12:
            return "(if (> (len keep) 0) (println \"k\" (apply (nth 0 keep) (list %s))))" % self.val()
        if k == 13:
            return self.call()
        if k == 14:
            return "(delvar '%s)" % self.v()
        return "(do (def n 2) (while (> n 0) (do (setf n (- n 1)) %s)))" % self.stmt(0)

    def program(self):
        r = self.r
        codes = ["(def a 1) (def b 2) (def c 3) (def x 4) (def keep (list))" if r.random() < 0.8 else "(def a 1) (def keep (list))"]
        for _ in range(r.randint(2, 6)):
            if r.random() < 0.5:
                n = "f%d" % len(self.fns)
                c = r.choice([0, 1, 1, 2])
                ps = r.sample(POOL, c)
                body = [self.stmt(2) for _ in range(r.randint(1, 4))]
                codes.append("(%s %s (%s) (do %s %s))" % (r.choice(["defn", "defn", "gdefn"]), n, " ".join(ps), " ".join(body), r.choice(["(list a b c x)", self.fn(1), "(rval keep)"])))
                self.fns.append((n, c))
            else:
                codes.append(" ".join(self.stmt(2) for _ in range(r.randint(1, 3))))
            codes.append("(println %s)" % self.call())
            codes.append("(println \"g\" a b c x)")
        return codes


FIX = [
    # counters: own variables per call, shared between sibling closures
    "(defn mk (n) (do (def cnt n) (list (lambda () (setf cnt (+ cnt 1))) (lambda () (rval cnt)) (lambda (v) (setf cnt v))))) (def p (mk {0})) (def q (mk {1})) (apply (nth 0 p) '()) (apply (nth 0 p) '()) (apply (nth 0 q) '()) (apply (nth 2 q) (list {2})) (list (apply (nth 1 p) '()) (apply (nth 1 q) '()))",
    "(def v {0}) (defn show () (rval v)) (defn caller (v) (show)) (defn caller2 () (do (def v {1}) (show))) (list (caller {2}) (caller2) v)",
    "(defn outer (n) (do (defn inner (m) (if (> m 0) (+ n (inner (- m 1))) n)) (inner {0}))) (list (outer {1}) (outer {2}))",
    "(defn fib (n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2))))) (def n 7) (list (fib 8) n)",
    "(defn comp (f g) (lambda (x) (f (g x)))) (def x {0}) (def h (comp (lambda (y) (+ y x)) (lambda (x) (* x 2)))) (list (h {1}) (do (setf x {2}) (h {1})))",
    "(def acc (list)) (defn reg (n) (push (lambda (d) (setf n (+ n d))) acc)) (reg {0}) (reg {1}) (list (apply (first acc) (list 1)) (apply (last acc) (list 10)) (apply (first acc) (list 100)))",
    "(defn rec (n k) (if (== n 0) (k) (rec (- n 1) (lambda () (list n (k)))))) (rec 4 (lambda () (rval {0})))",
    "(def y {0}) (defn f (y) (do (def g (lambda (z) (do (setf y (+ y z)) (rval y)))) (list (g 1) (g 2) y))) (list (f {1}) (f {2}) y)",
    "(defn mk2 () (do (def a {0}) (lambda () (do (def b {1}) (lambda () (do (setf a (+ a b)) (setf b (+ b 1)) (list a b))))))) (def m (mk2)) (def i1 (m)) (def i2 (m)) (list (i1) (i2) (i1) (i2))",
    "(def z {0}) (def l (map (lambda (i) (lambda () (list i z))) (list 1 2 3))) (setf z {1}) (map (lambda (f) (f)) l)",
]


NF = ["+", "-", "*", "max", "len", "list", "first", "str", "reverse", "abs", "my", "my2", "sin", "not", "cons", "append", "println", "if1"]


class Names:
    """places of calls which run again and again, while the called names get other meanings: builtins, functions, parameters, variables of any scope"""

    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.sites = []
        self.pool = rng.sample(NF, rng.randint(2, 4))

    def name(self):
        return self.r.choice(self.pool)

    def value(self):
        r = self.r
        self.n += 1
        return r.choice(["(lambda (. r) (list \"n%d\" r))", "(lambda (p q) (list p %d q))", "(lambda (p) (list p %d))", "(lambda () (rval %d))"]) % self.n if r.random() < 0.6 else r.choice(["+", "list", "str", "max", "-", "%d" % self.n, "\"t\"", "'(1 2)"])

    def define(self, d=1):
        r = self.r
        n = self.name()
        k = r.randint(0, 6)
        self.n += 1
        if k <= 1:
            return "(def %s %s)" % (n, self.value())
        if k == 2:
            return "(defn %s (. r) (list \"d%d\" r))" % (n, self.n)
        if k == 3:
            return "(gdef %s %s)" % (n, self.value())
        if k == 4:
            return "(gdefn %s (p q) (list q %d p))" % (n, self.n)
        if k == 5:
            return "(delvar '%s)" % n
        return "(setf %s %s)" % (n, self.value())

    def use(self):
        r = self.r
        return "(%s %s)" % (self.name(), " ".join(r.choice(["1", "2", "i", "u", "(%s 3 4)" % self.name()]) for _ in range(r.choice([1, 2, 2, 2, 3]))))

    def site(self):
        """a function whose calls are the same places for all of its runs"""
        r = self.r
        n = "s%d" % len(self.sites)
        k = r.randint(0, 5)
        u = self.use()
        if k == 0:
            t = "(defn %s (i u) (list %s))" % (n, u)
        elif k == 1:
            t = "(defn %s (i %s) (do (def u 9) (list %s)))" % (n, self.name(), u)         # the name is a parameter
        elif k == 2:
            t = "(defn %s (i u) (do (if (== u 1) (def %s %s)) (list %s)))" % (n, self.name(), self.value(), u)
        elif k == 3:
            t = "(defn %s (i u) (do (def l (list)) (while (< i 4) (do (push (list i %s) l) %s (setf i (+a i 1)))) (rval l)))" % (n, u, self.define())
        elif k == 4:
            t = "(defn %s (i u) (map (lambda (e) (do (if (== e 2) %s) (list e %s))) '(1 2 3)))" % (n, self.define(), u)
        else:
            t = "(defn %s (i u) (do (def k (lambda (u) (list %s))) (list (k 1) (do %s (k 2)))))" % (n, u, self.define())
        self.sites.append(n)
        return t

    def program(self):
        r = self.r
        codes = ["(def +a +) (def i 0) (def u 5)", "\n".join(self.site() for _ in range(r.randint(1, 3)))]
        for _ in range(r.randint(2, 7)):
            s = r.choice(self.sites)
            codes.append("(%s %s %s)" % (s, r.randint(0, 2), r.choice(["1", "2", "'(3)", "+", "str", "(lambda (. r) (list 0 r))"])))
            if r.random() < 0.6:
                codes.append(self.define())
            if r.random() < 0.3:
                codes.append("(apply (lambda (%s) (%s 1 2)) (list %s))" % (self.name(), s, self.value()))
        return codes


def names(rng, i):
    return Case(Names(rng).program())


def make(rng, i):
    if i % 5 == 0:
        return Case([rng.choice(FIX).replace("{0}", str(rng.randint(0, 50))).replace("{1}", str(rng.randint(0, 50))).replace("{2}", str(rng.randint(-5, 50))) for _ in range(rng.randint(1, 3))])
    if i % 5 == 1:
        g = gen.G(rng, depth=4)
        return Case([g.program() for _ in range(3)])
    return Case(Sc(rng).program())


def go():
    c = Check("P14", rule="programs which define, hide, assign, delete and print the same four names at all nestings of functions, closures, local functions, callbacks and loops, keep closures and call them later in other contexts; every output and value compared with the lexical model; plus closure patterns and typed random programs")
    c.compare(generate(make, c.n(4500), c.label("scope")), kind="scope")
    c.compare(generate(names, c.n(2500), c.label("names")), kind="names")
    c.compare(generate(big.deep_calls, c.n(150), c.label("big deep_calls")), kind="big")
    c.compare(generate(big.params, c.n(60), c.label("big params")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
