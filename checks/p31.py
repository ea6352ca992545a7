import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
from chk import Check, Case, generate, main
import chk, wl, gen, runner, big
import refinterp as R

NOAPPLY = {"if", "do", "begin", "def", "gdef", "defn", "gdefn", "setf", "while", "lambda", "fn", "quote", "quasiquote", "and", "or", "&&", "||", "rval", "return", "apply", "nth", "first", "last", "rest", "car", "cdr", "push", "pop", "eval", "evalstr", "args", "arg", "argscount", "need-l-value"}


class M(gen.G):
    """marks expressions which can be evaluated in other ways"""
    def expr(self, t, d=None):
        x = gen.G.expr(self, t, d)
        if x.startswith(("(", "\x03")) and self.r.random() < self.rate:
            return "\x01" + x + "\x02"
        return x

    def stmt(self, d=None):
        x = gen.G.stmt(self, d)
        if x.startswith(("(", "\x03")) and not x.startswith("(define") and self.r.random() < self.rate:
            return "\x01" + x + "\x02"
        return x

    def call(self, *parts):
        if parts[0] not in NOAPPLY and parts[0] in R.BUILTINS and " " not in str(parts[0]) and "\n" not in str(parts[0]) and self.r.random() < self.rate * 0.7:
            return "\x03" + str(parts[0]) + "\x04" + self.sp().join(str(x) for x in parts[1:]) + "\x05"
        return gen.G.call(self, *parts)


def render(t, how, rng):
    """how 0: in place; 1: eval of the quoted code; 2: evalstr of the text; 3: mixed"""
    pos = 0

    def part(stop):
        nonlocal pos
        out = []
        while pos < len(t):
            ch = t[pos]
            pos += 1
            if ch in stop:
                return "".join(out)
            if ch == "\x01":
                x = part("\x02")
                k = how if how < 3 else rng.choice([0, 1, 2])
                out.append(x if k == 0 else rng.choice(["(eval '%s)", "(eval (quote %s))"]) % x if k == 1 else "(evalstr %s)" % wl.lit(x))
            elif ch == "\x03":
                f = part("\x04")
                a = part("\x05")
                ap = how and rng.random() < 0.6
                out.append("(apply %s (list %s))" % (f, a) if ap else "(%s %s)" % (f, a))
            else:
                out.append(ch)
        return "".join(out)
    return part("")


class RandomFixed:
    pass


def make(rng, i):
    g = M(rng, faults=rng.choice([0, 0, 0.02, 0.04]), depth=3)
    g.rate = rng.choice([0.05, 0.1, 0.2])
    texts = [g.program(rng.randint(2, 6)) for _ in range(rng.randint(1, 2))]
    texts.append("(list %s)" % " ".join(g.visible("any")[:8]))
    cases = []
    for how in (0, 1, 2, 3):
        codes = [render(t, how, rng) for t in texts]
        if any(len(c) > 30000 for c in codes):
            return None
        cases.append(Case(codes, note=how))
    return cases


SCN = ["(first lst)", "(+ v 1)", "(setf v (+ v 5))", "(def w (* v 2))", "(gdef gw v)", "(do (def w 3) (println w v) (list w))", "(return (* v 7))", "(if (> v 3) (return 9))", "(while (< v 6) (do (setf v (+ v 1)) (if (== v 5) (return v))))", "(argscount)", "(args)", "(arg 0)", "(lambda (q) (+ q v))", "(defn local (q) (* q v))",
       "(no-fn v)", "(/ v 0)", "(delvar 'v)", "(push v lst)", "(println v lst '(q r) \"s\")", "(mac v 3)", "(cmac v)", "(list 'v v \"v\")", "`(v ,v ,@lst)", "(setf (first lst) v)", "(evalstr \"(setf v 77)\")", "(eval '(setf v 78))", "(map (lambda (e) (+ e v)) lst)", "(need-l-value)", "(h 2)", "(do (return 4) (println \"not\"))", "(quote (v w))", "(vars)", "(import \"mod.fuel\")", "(modfn v)", "(defn v2 (a) (do (return a) (println \"no\")))", "(print \"a\" v)", "(gettrace)", "(nth 9 lst)", "(list)", "(nop)"]


def scenes(rng, i):
    """bodies of functions evaluated in different ways: same variables, arguments, return"""
    xs = [rng.choice(SCN) for _ in range(rng.randint(1, 3))]
    wrap = rng.choice(["(defn f (v . lst) (do %s (println \"end\" v lst) (list v lst)))", "(defn f (v lst) (do %s (println \"end\" v lst) (list v lst)))", "(defn f (v lst) (do (def w 1) (defn inner (v) (do %s (println \"in\" v w) (list v w))) (println (inner 50)) (list v w lst)))",
                       "(defn f (v lst) (do (map (lambda (v) (do %s (println v))) (list 10 20)) (list v lst)))", "(defn f (v lst) (list (do %s (rval v)) v lst))", "(defn f (v lst) (if #t (do %s (rval v))))", "(defn f (v lst) (do (def k 0) (while (< k 2) (do (setf k (+ k 1)) %s)) (list v lst)))"]).replace(" . ", " ")
    out = []
    for how in (0, 1, 2):
        body = " ".join(x if how == 0 else "(eval '%s)" % x if how == 1 else "(evalstr %s)" % wl.lit(x) for x in xs)
        pre = "(define-macro-eval mac (a b) (list a b)) (define-macro-expand cmac (a) '(list a a)) (def w 100) (defn h (x) (+ x w))"
        codes = [pre, wrap % body, "(f 4 (list 1 2))", "(f 2 (list \"a\"))", "(list w (h 1))", "(do %s (list 1))" % body, "(list w)"]
        out.append(Case(codes, files={"mod.fuel": "(println \"mod loaded\") (def modv 3) (defn modfn (x) (+ x modv))"}, note=how))
    return out


APP = ["+", "-", "*", "list", "len", "cons", "append", "string", "f2", "fv", "first", "nth", "==", "<", "map", "reduce", "not", "str", "format", "reverse", "print", "println", "dict-get", "typestr", "max2", "closure", "slice", "/", "apply", "eval", "quote", "if"]


def applies(rng, i):
    pre = "(def v 3) (def l (list 1 2 3)) (defn f2 (a b) (do (println \"f2\" a b) (list b a))) (defn fv () (list (argscount) (args))) (defn max2 (a b) (if (> a b) a b)) (def closure (do (def n 0) (lambda (k) (setf n (+ n k)))))"
    f = rng.choice(APP[:29])
    a = [rng.choice(["v", "l", "1", "\"s\"", "nil", "(f2 1 2)", "#t", "'sym", "'(a b)", "2.5", "+", "(lambda (z) (list z))", "0", "(print \"e\")", "(list)"]) for _ in range(rng.randint(0, 3))]
    direct = "(%s %s)" % (f, " ".join(a))
    ap = "(apply %s (list %s))" % (f, " ".join(a))
    ctx = rng.choice(["%s", "(list %s)", "(do (defn t (q) %s) (t 1))", "(map (lambda (q) %s) (list 1 2))", "(println %s)"])
    return [Case([pre, ctx % x if ctx != "%s" else "(list %s)" % x, "(list v l)"], note=n) for n, x in enumerate([direct, ap])]


def go():
    c = Check("P31", rule="random programs, function bodies and calls, each executed in place and with random parts replaced by eval of the quoted code, evalstr of its text or apply with the argument list: values, effects, output and error messages must be the same, and equal to those of the model")
    for mk, n, label in ((make, c.n(800), "programs"), (scenes, c.n(800), "scenes"), (applies, c.n(800), "apply")):
        cs = generate(mk, n, c.label(label))
        # which evaluations a failing run skipped is part of the comparison, positions of errors are not
        res = c.compare(cs, kind=label)
        it = iter(res)
        obs = {id(x): next(it) for x in cs if not x.err}
        group = []
        for x in cs + [None]:
            if x is None or x.note == 0:
                check(c, group, obs, label)
                group = []
            if x is not None:
                group.append(x)
    c.compare(generate(big.applied, c.n(150), c.label("big applied")), kind="big")
    c.finish()


def check(c, group, obs, label):
    if not group or group[0].err:
        return
    r0 = obs.get(id(group[0]))
    if not r0 or not r0.rec:
        return
    for x in group[1:]:
        r = obs.get(id(x))
        if x.err or not r or not r.rec:
            continue
        c.stat("compared with the code in place")
        for j, (s, t) in enumerate(zip(r0.r, r.r)):
            d = s["k"] != t["k"] or chk.nn(s["o"]) != chk.nn(t["o"]) or s["k"] == "ok" and chk.nn(s["v"]) != chk.nn(t["v"]) or s["k"] != "ok" and s["m"] != t["m"]
            if d and not tolerated(label, s, t):
                c.violation(label + ":" + chk.key_of(x), "%s\n   gives %s %r, in place\n%s\n   %s %r" % (x.codes[j], chk.brief(t), chk.clip(t["o"]), group[0].codes[j], chk.brief(s), chk.clip(s["o"])), {"with": x.codes, "in place": group[0].codes, "observed": [r.r, r0.r]})
                break


def tolerated(label, s, t):
    return False


if __name__ == "__main__":
    main(go)
