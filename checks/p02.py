import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import gen, random

FILES = {"bad.fuel": "(def in-bad 1)\n(println \"loading\")\n(defn bad-fn (x)\n (no-such x))\n(bad-fn 5)\n(def never 1)\n",
         "good.fuel": "(def in-good 2)\n(defn good-fail (x) (do\n (println \"gf\" x)\n (/ x 0)))\n(defn good-ok (x) (+ x in-good))\n",
         "mac.fuel": "(define-macro-eval mm (x) (do (println \"mm\") x (boom-in-macro)))\n", "broken.fuel": "(def q 1) (println \"never\""}

PRE = ("(def l (list 1 2 3)) (def v 1) (def d (make-dict)) (dict-set d 1 2) (defn f (x) (do (println \"f\" x) (rval x))) (defn acc () (first l)) (defn acc2 (z) (nth 1 z)) (defn ret (x) (do (return x) (println \"no\")))"
       " (define-macro-eval m1 (p) (do (println \"m1\") p (rval 1))) (define-macro-eval m2 (p q) (list p q)) (define-macro-expand e1 (p) '(println \"e1\" p)) (defn cnt () (do (def n 0) (lambda () (setf n (+ n 1))))) (def c (cnt))"
       " (defn rec (n) (if (< n 1) (no-fn n) (+ 1 (rec (- n 1)))))")

FAULTS = ["(no-fn 1)", "(/ 1 0)", "(first '())", "(nth 7 l)", "(rec 2)", "(good-fail 3)", "(acc2 (list))", "(evalstr \"(no-fn)\")", "(evalstr \"(\")", "(eval '(/ 1 0))", "(apply f 5)", "(len 5)", "(map (lambda (y) (/ 1 y)) (list 1 0))",
          "(reduce (lambda (a b) (/ a b)) (list 0 1) 0)", "(import \"bad.fuel\")", "(import \"broken.fuel\")", "(if 5 1 2)", "(setf nix 1)", "(setf (nth 9 l) 1)", "(m2 1)", "(e1)", "(return)", "(f (setf (nth 9 l) 1))", "(dict-set 5 1 1)", "(trace)", "(def 5 6)", "(do 5)", "(and 1)", "(mm 1)"]


def ctx(rng, x):
    k = rng.randint(0, 27)
    return ["(f %s)", "(setf v %s)", "(setf (first l) %s)", "(setf (nth %s l) 5)", "(setf (acc2 %s) 7)", "(def w %s)", "(return %s)", "(ret %s)", "(println \"p\" v %s)", "(do (def w1 (+ v 1)) (setf v 50) %s (setf v 60))",
            "(if %s 1 2)", "(while #t (do (println \"loop\") %s))", "(map (lambda (q) (do (println q) %s)) l)", "(apply (lambda (q) (+ q %s)) (list 1))", "(reduce (lambda (q r) (+ q r %s)) l 0)", "(eval '%s)", "(list 1 %s (println \"late\"))",
            "(m1 %s)", "(m2 (rval 1) %s)", "(quasi_ %s)", "(dict-set d %s 1)", "(and #t %s)", "(c %s)", "(evalq %s)", "(defn g () (do (setf v 70) %s (setf v 80))) (g)", "(setf (acc2 (do (println \"in\") %s)) 3)", "(setf (first (rval %s)) 3)", "((lambda () %s))"][k].replace("%s", x) if k not in (19, 23) else \
        ("`(1 ,%s ,@l)" % x if k == 19 else "(evalstr %s)" % wl.lit(x))


PROBES = ["(println l v d (need-l-value) (gettrace))", "(f 3)", "(setf (nth 1 l) 9)", "(setf (acc2 l) 8)", "(do (return 5) (println \"no\"))", "(ret 4)", "(println (c) (c))", "(m1 2)", "(m2 1 2)", "(e1 6)", "(list w w1 in-bad never in-good)", "(do (trace #t) (println \"tr\") (trace #f) (gettrace))",
          "(import \"good.fuel\")", "(good-ok 1)", "(args)", "(setf v (+ v 1))", "(def v 5)", "(map f l)", "(evalstr \"(+ 1 v)\")", "(acc)", "(nth 0 l)", "(push 5 l)", "`(a ,v ,@l)", "(while (< v 3) (setf v (+ v 1)))"]


def make(rng, i):
    if i % 3 == 0:
        g = gen.G(rng, faults=0.06, depth=3)
        codes = []
        for _ in range(rng.randint(3, 6)):
            codes.append(g.program(rng.randint(2, 5)))
            codes.append("(list %s)" % " ".join(g.visible("any")[:8]))
        return Case(codes, flags=rng.choice(["", "m"]))
    codes = [PRE]
    if rng.random() < 0.5:
        codes.append("(import \"good.fuel\")")
    if rng.random() < 0.3:
        codes.append("(import \"mac.fuel\")")
    for _ in range(rng.randint(2, 5)):
        x = rng.choice(FAULTS)
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
            x = ctx(rng, x)
        if rng.random() < 0.3:
            x = "(println \"before\") (setf v (+ v 10)) %s (println \"after\")" % x
        codes.append(x)
        for _ in range(rng.randint(1, 3)):
            codes.append(rng.choice(PROBES))
        codes.append(PROBES[0])
    return Case(codes, files=FILES, flags=rng.choice(["", "m", "m"]))


def go():
    c = Check("P02", rule="histories of evaluations in one environment, with failures injected at all kinds of positions (assignment targets, arguments, callbacks, loops, templates, macros, nested evaluation, modules), each followed by probing evaluations; every observation is compared with the model, and with a step monitor attached the call depth at which each evaluation begins")
    depth = [0]

    def per_case(case, r):
        if "m" not in case.flags:
            return
        first = None
        for j, x in enumerate(r.r):
            if x.get("ev"):
                p = x["ev"][0].split(":")
                k = (p[3], p[4])
                depth[0] += 1
                if first is None:
                    first = k
                elif k != first:
                    c.violation("depth:" + chk.key_of(case), "evaluation %d begins at call depth %s in %s, but the first one at depth %s in %s: %s" % (j + 1, k[0], k[1], first[0], first[1], chk.clip(" ;; ".join(case.codes[:j + 1]))), {"case": case.show(), "observed": r.r})
                    return
    c.compare(generate(make, c.n(3000), c.label("hist")), kind="state", per_case=per_case)
    c.stats["depths compared"] = depth[0]
    c.compare(generate(big.deep_calls, c.n(100), c.label("big deep_calls")), kind="big")
    c.compare(generate(big.lines, c.n(60), c.label("big lines")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
