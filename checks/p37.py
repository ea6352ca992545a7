import sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, gen, runner, big
import p19


class W(p19.W):
    """compile time macros: the body is code which makes the code"""

    def text(self, t, env=None, out=False):
        if isinstance(t, str):
            return t
        if isinstance(t, tuple):
            if t[0] == "P":
                return env[t[1]][1 if out else 0] if env is not None else t[1]
            if not out:
                return "(" + " ".join([t[1]] + [self.text(x, env, out) for x in t[2]]) + ")"
            pars, body = self.macros[t[1]]
            args = [(self.text(x, env, False), self.text(x, env, True)) for x in t[2]]
            return self.text(body, dict(zip(pars, args)), out)
        return "(" + " ".join(self.text(x, env, out) for x in t) + ")"

    def uses(self, t, n):
        if isinstance(t, tuple):
            return t[0] == "M" and (t[1] == n or any(self.uses(x, n) for x in t[2]))
        return isinstance(t, list) and any(self.uses(x, n) for x in t)

    def define(self):
        r = self.r
        # the body of a macro is expanded when it is defined, so macros in use by others are not redefined here
        n = r.choice([x for x in ["m1", "m2", "m3", "unless", "my+"] if not any(self.uses(b, x) for p, b in self.macros.values())])
        old = self.macros.pop(n, None)
        pars = r.sample(["k1", "k2", "k3", "k4"], len(old[0]) if old else r.randint(0, 3))
        body = self.e(3, pars)
        if not isinstance(body, list):
            body = ["do", ["println", "\"in\""], ["rval", body]]
        body = self.mark(body, pars)
        self.macros[n] = (pars, body)
        k = r.randint(0, 3)
        if k == 0 or body[0] == "quote":
            code = "(quote %s)" % self.text(body)
        elif k == 1:
            code = "(list %s)" % " ".join("'" + self.text(x) if not isinstance(x, str) or not x.startswith("\"") else x for x in body)
        elif k == 2:
            code = "(cons '%s (list %s))" % (self.text(body[0]), " ".join("(quote %s)" % self.text(x) for x in body[1:]))
        else:
            code = "'" + self.text(body)
        return "(define-macro-expand %s (%s) %s)" % (n, " ".join(pars), code)


def pair(rng, i):
    """program with compile time macros, the same shown expanded, and written out"""
    w = W(rng)
    A, B = [p19.PRE], [p19.PRE]
    for _ in range(rng.randint(2, 3)):
        save = dict(w.macros)
        t = w.define()
        if w.cyclic():
            w.macros = save
            continue
        defs, uses, wr = t, [], []
        for _ in range(rng.randint(1, 3)):
            t = w.e(3)
            k = rng.randint(0, 5)
            wrap = ["(list %s)", "(do (defn h (x) (list x %s)) (list (h 1) (h 2)))", "(map (lambda (y) (list y %s)) (list 1 2))", "(do (def i 0) (while (< i 3) (do (setf i (+ i 1)) (println i %s))))", "(println %s)", "(if #f (list %s) (list 1))"][k]
            b = w.text(t, {}, True)
            if len(b) > 6000:
                continue
            uses.append(wrap % w.text(t))
            wr.append(wrap % b)
        if rng.random() < 0.5:
            # definition and use in the same text
            A.append(defs + "\n" + "\n".join(uses) + " (list 0)")
            B.append("\n".join(wr) + " (list 0)")
        else:
            A.append(defs + " (list 0)")
            B.append("(list 0)")
            A += uses
            B += wr
        A.append("(list a b v l p (dict-keys d))")
        B.append("(list a b v l p (dict-keys d))")
    return [Case(A, note="macros"), Case(B, note="written out")]


DEFS = ["(define-macro-expand m (p q) '(list p q p))", "(define-macro-expand m (q p) `(list p q p))", "(define-macro-expand m (p) '(do (println \"one\" p) (rval p)))", "(define-macro-expand z () '(println \"z\" v))", "(define-macro-expand k () 42)", "(define-macro-expand st () \"text\")",
        "(define-macro-expand swap (x y) '(do (def tmp x) (setf x y) (setf y tmp) (list x y)))", "(define-macro-expand my-if (k x y) '(if k x y))", "(define-macro-expand cnt (x) (len 'x))", "(define-macro-expand rev (x) (reverse 'x))", "(define-macro-expand pick (x y) (if (> (len 'x) 2) 'x 'y))",
        "(define-macro-expand outer (x) '(do (println \"o\") (inner x)))", "(define-macro-expand inner (x) '(list \"inner\" x))", "(define-macro-expand pr (x) (do (println \"expanding\") 'x))", "(define-macro-expand add (a b) (+ a b))", "(define-macro-expand boom (x) (no-fn x))", "(define-macro-expand dbl (x) '(+ x x))", "(define-macro-expand quad (x) '(dbl (dbl x)))"]
USES = ["(m)", "(m 1)", "(m 1 2)", "(m 1 2 3)", "(m (f 1) (f 2))", "(m a (m b v))", "(list (m 3 4))", "(z)", "(z 9)", "(k)", "(list (k) (st))", "(swap a b)", "(my-if #t (f 1) (f 2))", "(my-if (cnt (1 2 3)) 1 2)", "(println (cnt (u v w)))", "(rev (3 2 +))", "(pick (+ 1 2) (f 3))", "(pick (1) (f 3))", "(outer 5)", "(outer (inner (outer 1)))",
        "(list (pr 1) (pr (f 2)))", "(println \"before\") (boom 1)", "(defn h (x) (m x x)) (h 7)", "(map (lambda (e) (m e v)) l)", "(eval '(list (k)))", "(evalstr \"(list (k))\")", "(defn ef (x) (list x (evalstr \"(m 1 (k))\"))) (ef 2)", "(map (lambda (e) (evalstr \"(m e 5)\")) l)", "(defn eg (x) (do (evalstr \"(define-macro-expand m3 (p) '(list p x p))\") (evalstr \"(m3 7)\"))) (eg 3)", "(list (m3 9))", "(evalstr \"(evalstr \\\"(m 2 3)\\\")\")", "(import \"cm.fuel\") (list (cmf 2) (cm1 3))", "(list (cmf (cm1 4)))", "(println (cm1 (m 1 2)))", "(add 1 2)", "(println (add 3 4))", "(f (quad 2))", "(quad (f 1))", "(define-macro-expand bad (x))", "(do (define-macro-expand in (x) '(list x x)) (in 5))", "(if #f (z) (list (k)))", "(f m)", "(m (define-macro-expand m2 (x) '(list x)) 1)", "(m 1 (define-macro-expand c () \"x\"))", "(rev (define-macro-expand m2 (x) '(list x x)))", "(my-if #t (define-macro-expand m2 (x) '(f x)) (f 2))", "(list (m2 5))", "(println 'k)"]


FILES = {"cm.fuel": "(define-macro-expand cm1 (p) '(list p \"cm1\" p))\n(define-macro-expand m (p q) '(list q \"module\" p))\n(defn cmf (x) (list (cm1 x) (evalstr \"(cm1 x)\")))\n"}


def odd(rng, i):
    out = [p19.PRE]
    for _ in range(rng.randint(3, 8)):
        out.append(" ".join(rng.choice(DEFS if rng.random() < 0.45 else USES) for _ in range(rng.randint(1, 3))))
    out.append("(list a b v l)")
    if rng.random() < 0.3:
        return Case(out[1:], flags="x", files=FILES)
    return Case(out, files=FILES)


def shown(rng, i):
    w = W(rng)
    out = []
    for _ in range(rng.randint(1, 3)):
        save = dict(w.macros)
        t = w.define()
        if w.cyclic():
            w.macros = save
        else:
            out.append(t)
    out.append(" ".join(("(println %s)" % w.text(w.e(3))) for _ in range(rng.randint(1, 3))) + " (list 1)")
    return Case([" ".join(out)], flags="x")


def chain(rng, i):
    """macros whose code is the call of the next macro, over many rounds of expansion"""
    n = rng.choice([1, 2, 3, 5, 8, 9, 12, 16, 17, 25, 33, 40])
    base = rng.choice(["'(+ x 1)", "(list '+ 'x 1)", "'(list \"end\" x x)", "'(do (println \"end\" x) (rval x))", "(list 'println 'x)", "'(m x)"])
    defs = ["(define-macro-expand m (p) '(list p p))", "(define-macro-expand c0 (x) %s)" % base]
    for k in range(1, n + 1):
        call = rng.choice(["(list 'c%d 'x)", "(list 'c%d 'x)", "(cons 'c%d (list 'x))", "(list 'c%d (list '+ 'x 1))", "(reverse (list 'x 'c%d))", "(do (println \"round %d\") (list 'c%d 'x))", "(list (sym \"c%d\") 'x)", "(append (list 'c%d) (list 'x))"])
        k0 = k - 1
        defs.append("(define-macro-expand c%d (x) %s)" % (k, call.replace("round %d", "round %d" % k).replace("%d", str(k0))))
    rng.random() < 0.3 and rng.shuffle(defs)
    use = lambda: rng.choice(["(println (c%d 1))", "(list (c%d (f 2)))", "(c%d v)", "(do (def q 5) (list (c%d q) q))", "(defn h (z) (list z (c%d z))) (h 3)", "(map (lambda (z) (list z (c%d z))) l)", "(list (c%d (c1 2)))", "(c%d)", "(evalstr \"(list (c%d 4))\")"]) % rng.choice([n, n, rng.randint(0, n)])
    uses = [use() for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.5:
        return Case([p19.PRE, "\n".join(defs) + "\n" + "\n".join(uses) + " (list 1)"])
    if rng.random() < 0.3:
        return Case(["\n".join(defs) + "\n" + " ".join(uses[:2])], flags="x")
    return Case([p19.PRE, "\n".join(defs)] + uses)


def go():
    c = Check("P37", rule="random compile time macros whose bodies make code in several ways, nested and redefined, used in functions, callbacks and loops: compared with the model, with the same program written out by textual substitution, and with the execution of the shown expansion; chains of up to 40 macros each giving the call of the next; programs without macros must be shown as they are read")
    cs = generate(pair, c.n(700), c.label("pair"))
    res = c.compare(cs, kind="macro")
    by = {id(x): r for x, r in zip([x for x in cs if not x.err], res)}
    k = 0
    for x, y in zip(cs[::2], cs[1::2]):
        rx, ry = by.get(id(x)), by.get(id(y))
        if not rx or not ry or not rx.rec or not ry.rec:
            continue
        for j, (s, t) in enumerate(zip(rx.r, ry.r)):
            k += 1
            if s["k"] != t["k"] or chk.nn(s["o"]) != chk.nn(t["o"]) or s["k"] == "ok" and chk.nn(s["v"]) != chk.nn(t["v"]) or s["k"] != "ok" and s["m"] != t["m"]:
                c.violation("written:" + chk.key_of(x), "%s\n   gives %s %r, written out\n%s\n   %s %r" % (x.codes[j], chk.brief(s), chk.clip(s["o"]), y.codes[j], chk.brief(t), chk.clip(t["o"])), {"with": x.codes, "written": y.codes, "observed": [rx.r, ry.r]})
                break
    c.stats["uses compared with the text written out"] = k
    c.compare(generate(odd, c.n(1200), c.label("odd")), kind="odd")
    c.compare(generate(chain, c.n(400), c.label("chain")), kind="chain")

    # the expansion shown is the code executed
    sh = generate(shown, c.n(500), c.label("shown"))
    first = c.compare(sh, kind="shown")
    sh = [x for x in sh if not x.err]
    texts = [r.r[0].get("s") if r and r.rec and r.r[0]["k"] == "ok" else None for r in first]
    pick = [(x, t) for x, t in zip(sh, texts) if t]
    one = c.run([runner.ev(p19.PRE, x.codes[0]) for x, t in pick])
    two = c.run([runner.ev(p19.PRE, t) for x, t in pick])
    for (x, t), r1, r2 in zip(pick, one, two):
        if c.crash(r1, x.show()) or c.crash(r2, {"text": t}):
            continue
        s, u = r1.r[1], r2.r[1]
        c.stat("shown expansions executed")
        if s["k"] != u["k"] or chk.nn(s["o"]) != chk.nn(u["o"]) or s["k"] == "ok" and chk.nn(s["v"]) != chk.nn(u["v"]) or s["k"] != "ok" and s["m"] != u["m"]:
            c.violation("exec:" + chk.key_of(x), "%s\n   gives %s %r, the expansion shown\n%s\n   gives %s %r" % (x.codes[0], chk.brief(s), chk.clip(s["o"]), t, chk.brief(u), chk.clip(u["o"])), {"case": x.show(), "shown": t, "observed": [s, u]})

    # code without macros is shown as it is read
    progs = []
    rng = c.rng("plain")
    for i in range(c.n(400)):
        progs.append(gen.G(rng, faults=0.02, depth=3).program())
    a = c.run([runner.ev(x, flags="x") for x in progs])
    b = c.run([runner.Req("parse", "0", "(do " + x + "\n)") for x in progs])
    for x, r, s in zip(progs, a, b):
        if c.crash(r, x) or c.crash(s, x):
            continue
        c.saw(x)
        want = s.rec["ast"]
        if r.r[0]["k"] != "ok" or r.r[0]["o"] or r.r[0]["v"] != want:
            c.violation("plain:" + x[:80], "the program without macros\n%s\n   is shown as %s, read as %s" % (x, chk.brief(r.r[0]), want), {"code": x, "shown": r.r[0], "read": s.rec})
    c.compare(generate(big.expansions, c.n(200), c.label("big expansions")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
