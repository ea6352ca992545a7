import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, runner, big

PRE = ("(def a 1) (def b 2) (def v 10) (def l (list 1 2 3)) (defn f (x) (do (println \"f\" x) (rval x))) (defn g (p q) (do (println \"g\" p q) (+ p q))) (defn mkc () (do (def n 0) (lambda () (setf n (+ n 1))))) (def c (mkc)) (def p 50) (def d (make-dict))")
PARS = ["p", "q", "r", "x", "body", "a"]


class W:
    """macro definitions with their bodies; uses can be written with the macro or written out"""

    def __init__(self, rng):
        self.r = rng
        self.macros = {}   # name -> (pars, body tokens): body is a text with \1name\2 for parameters and \3name(args)\4 for macro uses
        self.depth = 0

    def e(self, d, pars=(), quoted=True):
        """expression as a tree: str atoms or lists; ('P', name) parameter, ('M', name, args) use of a macro"""
        r = self.r
        k = r.random()
        if pars and k < 0.3:
            return ("P", r.choice(pars))
        if d <= 0 or k < 0.4:
            return r.choice(["1", "2", "7", "a", "b", "v", "\"p\"", "\"q x\"", "l", "2.5", "#t", ["quote", ["p", "q"]], ["c"], "nil"])
        ms = [m for m in self.macros]
        if ms and k < 0.55:
            m = r.choice(ms)
            return ("M", m, [self.e(d - 1, pars) for _ in self.macros[m][0]])
        s = lambda: self.e(d - 1, pars)
        j = r.randint(0, 19)
        return {0: lambda: ["+", s(), s()], 1: lambda: ["list", s(), s()], 2: lambda: ["f", s()], 3: lambda: ["g", s(), s()], 4: lambda: ["if", ["==", s(), s()], s(), s()],
                5: lambda: ["do", ["println", s()], ["rval", s()]], 6: lambda: ["do", ["def", "w%d" % r.randint(0, 2), s()], ["println", s(), s()], ["rval", s()]], 7: lambda: ["setf", r.choice(["v", "a", "b"]), s()],
                8: lambda: ["map", ["lambda", ["z"], ["+", "z", s()]], "l"], 9: lambda: ["apply", ["lambda", ["z"], ["list", "z", s()]], ["list", s()]], 10: lambda: ["list", "'lit", s(), ["quote", ["p", ["q"], "r"]]],
                11: lambda: ["println", s(), s()], 12: lambda: ["string", s(), "\"-\"", s()], 13: lambda: ["first", ["cons", s(), ["list", s()]]], 14: lambda: ["do", ["def", "i", "0"], ["while", ["<", "i", "2"], ["do", ["setf", "i", ["+", "i", "1"]], ["print", s()]]], ["rval", "i"]],
                15: lambda: ["eval", ["list", ["quote", "+"], s(), s()]], 16: lambda: ["dict-set", "d", s(), s()], 17: lambda: ["quote", s()] if quoted else s(), 18: lambda: ["*", s(), s()], 19: lambda: ["list", s()]}[j]()

    def text(self, t, env=None, out=False):
        """source text; env: parameter -> text; out: macros written out"""
        # env: parameter -> (text with macros kept, text written out); quoted parts keep their macros
        if isinstance(t, str):
            return t
        if isinstance(t, tuple):
            if t[0] == "P":
                return env[t[1]][1 if out else 0] if env is not None else t[1]
            if not out:
                return "(" + " ".join([t[1]] + [self.text(x, env, out) for x in t[2]]) + ")"
            pars, body = self.macros[t[1]]
            args = [(self.text(x, env, False), self.text(x, env, True)) for x in t[2]]
            return self.text(body, dict(zip(pars, args)), out)
        if t and t[0] == "quote":
            return "(quote " + self.text(t[1], env, False) + ")"
        return "(" + " ".join(self.text(x, env, out) for x in t) + ")"

    def mark(self, t, pars):
        """every name of a parameter in the body means the parameter"""
        if isinstance(t, str):
            return ("P", t) if t in pars else t
        if isinstance(t, tuple):
            return t if t[0] == "P" else ("M", t[1], [self.mark(x, pars) for x in t[2]])
        return [self.mark(x, pars) for x in t]

    def define(self):
        r = self.r
        n = r.choice(["m1", "m2", "m3", "unless", "my+"])
        old = self.macros.pop(n, None)
        pars = r.sample(PARS, len(old[0]) if old else r.randint(0, 3))
        # bodies refer to the macros known now; a body which uses a macro is expanded when used, so later redefinitions count for it
        body = self.e(3, pars)
        if not isinstance(body, list):
            body = ["do", ["println", "\"in\""], ["rval", body]]
        body = self.mark(body, pars)
        self.macros[n] = (pars, body)
        return "(%s %s (%s) %s)" % (r.choice(["define-macro-eval", "define-macro-eval", "define-macro"]), n, " ".join(pars), self.text(body))

    def cyclic(self):
        def uses(t):
            if isinstance(t, tuple):
                return ({t[1]} if t[0] == "M" else set()) | (set().union(*[uses(x) for x in t[2]]) if t[0] == "M" and t[2] else set())
            if isinstance(t, list):
                return set().union(*[uses(x) for x in t]) if t else set()
            return set()
        g = {m: uses(b) for m, (p, b) in self.macros.items()}
        seen = {}

        def visit(m):
            if seen.get(m) == 1:
                return True
            if seen.get(m) == 2:
                return False
            seen[m] = 1
            r = any(visit(x) for x in g.get(m, ()))
            seen[m] = 2
            return r
        return any(visit(m) for m in g) or any(u not in g for us in g.values() for u in us)


def pair(rng, i):
    """(program with macros, program written out)"""
    w = W(rng)
    A, B = [PRE], [PRE]
    for _ in range(rng.randint(2, 4)):
        save = dict(w.macros)
        t = w.define()
        if w.cyclic():
            w.macros = save
            continue
        A.append(t)
        B.append(t)
        for _ in range(rng.randint(1, 3)):
            t = w.e(3)
            k = rng.randint(0, 4)
            wrap = ["(list %s)", "(do (defn h (x) (list x %s)) (list (h 1) (h 2)))", "(map (lambda (y) (list y %s)) (list 1 2))", "(do (def i 0) (while (< i 3) (do (setf i (+ i 1)) (println i %s))))", "(println %s)"][k]
            b = w.text(t, {}, True)
            if len(b) > 6000:
                continue
            A.append(wrap % w.text(t))
            B.append(wrap % b)
        A.append("(list a b v l p (dict-keys d))")
        B.append("(list a b v l p (dict-keys d))")
    ca, cb = Case(A, note="macros"), Case(B, note="written out")
    return [ca, cb]


SPECIAL = ["(m)", "(m 1)", "(m 1 2)", "(m 1 2 3)", "(m (f 1) (f 2))", "(m a (m b v))", "(list (m 3 4))", "(def m 5)", "(println m)", "(m '(1 2) \"s\")", "(z)", "(z 9)", "(t3 (+ v 1))", "(defn m (x) (* x 100))", "(swap a b)", "(cap 1 (c) '(x))", "(my-if #t (f 1) (f 2))", "(rc 1 3)", "(rc (f 1) 2)", "(inc-it v)", "(inc-it l)", "(quo (a b c) d)", "(list 'm '(m 1 2))", "(wh (< v 14) (println v) (inc-it v))", "((m 1 2))", "(eval '(m 1 2))", "(evalstr \"(m 4 5)\")", "(map (lambda (k) (m k v)) l)"]
DEFS = ["(define-macro-eval m (p q) (list p q p))", "(define-macro-eval m (q p) (list p q p))", "(define-macro-eval m (p) (do (println \"one\" p) (rval p)))", "(define-macro-eval z () (println \"z\" v))", "(define-macro-eval t3 (x) (do (setf v x) (list v x)))", "(define-macro-eval swap (x y) (do (def tmp x) (setf x y) (setf y tmp) (list x y)))",
        "(define-macro-eval cap (x y z) (list x y z (list z y x) 'x \"x y z\"))", "(define-macro-eval my-if (k x y) (if k x y))", "(define-macro-eval rc (x n) (if (<= n 0) x (rc (+ x 1) (- n 1))))", "(define-macro-eval inc-it (x) (setf x (+ x 1)))", "(define-macro-eval quo (x y) (list 'x 'y '(x y)))", "(define-macro-eval wh (k s1 s2) (while k (do s1 s2)))"]


def odd(rng, i):
    out = [PRE]
    for _ in range(rng.randint(3, 9)):
        out.append(" ".join(rng.choice(DEFS if rng.random() < 0.45 else SPECIAL) for _ in range(rng.randint(1, 2))))
    out.append("(list a b v l)")
    return Case(out)


def shadow(rng, i):
    """variables, parameters and functions with the name of a macro"""
    n = rng.choice(["m", "first", "f", "v", "tw"])
    mac = "(define-macro-eval %s (x) (list 'mac x x))" % n
    use = lambda a: rng.choice(["(%s %s)", "(list %s (%s %s))" % (n, "%s", "%s"), "(apply (lambda (z) (%s z)) (list %s))", "(map (lambda (z) (%s z)) (list 1 %s))", "(evalstr \"(%s %s)\")", "(eval '(%s %s))"]) % (n, a)
    other = ["(def %s 5)" % n, "(defn %s (x) (list 'fun x))" % n, "(defn h (%s) %s) (h 7)" % (n, use("1")), "(defn h (q) (do (def %s q) %s)) (h 8)" % (n, use("q")), "(defn h (%s) (list %s (quote %s))) (h 9)" % (n, n, n),
             "(delvar '%s)" % n, "(list %s)" % n, "(setf %s 6)" % n, "((lambda (%s) %s) 3)" % (n, use("2")), "(map (lambda (%s) %s) '(1 2))" % (n, use("4")), "(println '%s (list '%s 1))" % (n, n), "(doc '%s)" % n if rng.random() < 0 else "(typestr %s)" % n]
    codes = [PRE] + [rng.choice(other) for _ in range(rng.randint(0, 2))] + [use("0"), mac]
    for _ in range(rng.randint(2, 6)):
        codes.append(use(str(rng.randint(0, 9))) if rng.random() < 0.5 else rng.choice(other))
    return Case(codes + [use("(+ 1 2)"), "(list a b v l)"])


def go():
    c = Check("P19", rule="random run time macros with parameters at any position (targets, heads, quoted, repeated, nested macro uses, redefinitions, equal names), used at top level, in functions, callbacks and loops: each program is compared with the model and with the same program written out by textual substitution; plus histories of wrong counts, recursion and redefinition against the model")
    cs = generate(pair, c.n(700), c.label("pair"))
    res = c.compare(cs, kind="macro")
    ok = [x for x in cs if not x.err]
    by = {}
    for x, r in zip(ok, res):
        by[id(x)] = r
    k = 0
    for x, y in zip(cs[::2], cs[1::2]):
        rx, ry = by.get(id(x)), by.get(id(y))
        if not rx or not ry or not rx.rec or not ry.rec:
            continue
        for j, (s, t) in enumerate(zip(rx.r, ry.r)):
            if x.codes[j].startswith("(define-macro"):
                continue
            k += 1
            if s["k"] != t["k"] or chk.nn(s["o"]) != chk.nn(t["o"]) or s["k"] == "ok" and chk.nn(s["v"]) != chk.nn(t["v"]) or s["k"] != "ok" and s["m"] != t["m"]:
                c.violation("written:" + chk.key_of(x), "%s\n   gives %s %r, written out\n%s\n   %s %r" % (x.codes[j], chk.brief(s), chk.clip(s["o"]), y.codes[j], chk.brief(t), chk.clip(t["o"])), {"with": x.codes, "written": y.codes, "observed": [rx.r, ry.r]})
                break
    c.stats["uses compared with the text written out"] = k
    c.compare(generate(odd, c.n(900), c.label("odd")) + generate(shadow, c.n(300), c.label("shadow")), kind="odd")
    c.compare(generate(big.macros, c.n(200), c.label("big macros")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
