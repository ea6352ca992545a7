import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big

PRE = ("(def a 1) (def b \"b b\") (def c (list 1 2 3)) (def e (list)) (def n nil) (def d 2.5) (def s 'sym) (def q '(+ 1 2)) (def nest (list (list 1 2) \"x\" (list))) (defn f (x) (do (println \"f\" x) (rval x)))"
       " (defn lst (x y) (list x y)) (defn inc (x) (+ x 1)) (defn mk () (do (def k 0) (lambda () (setf k (+ k 1))))) (def cnt (mk))")
WORDS = ["if", "do", "def", "lambda", "+", "println", "f", "while", "setf", "return", "a", "b", "zz", "quote", "x-y", "list", "evalstr", "&", "##", "define-macro-eval"]


def code(rng, d):
    """an expression as data"""
    k = rng.random()
    if d <= 0 or k < 0.45:
        j = rng.random()
        if j < 0.35:
            return rng.choice(WORDS)
        return wl.datum(rng, 0, texts=wl.hostile_text if rng.random() < 0.2 else None)
    if k < 0.9:
        return "(" + " ".join(code(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 3, 3, 4]))) + ")"
    if k < 0.97:
        return "'" + code(rng, d - 1)
    return "(quote %s)" % code(rng, d - 1)


SINGLE = ["a", "b", "c", "e", "n", "d", "s", "q", "nest", "(f 1)", "(+ a 1)", "(list a b)", "(f (inc a))", "(cnt)", "(if #t c b)", "(do (print \"x\") (rval a))", "(rval '(u v))", "5", "\"str\"", "#t", "nil", "(lst a (list b))", "(first c)", "(map inc c)", "`(z ,a)", "'(x y)", "'w", "undefd", "(lambda (x) x)"]
SPLICE = ["c", "e", "n", "q", "nest", "(list a b)", "(map inc c)", "(rest c)", "(cons 1 c)", "'(u v)", "(lst 1 2)", "nil", "(list)", "(append c c)", "(f c)", "`(z ,a)"]
BADS = ["(no-fn 1)", "(/ 1 0)", "(nth 9 c)"]


def tpl(rng, d, top=False):
    k = rng.random()
    if not top and k < 0.22:
        return "," + (rng.choice(SINGLE) if rng.random() < 0.98 else rng.choice(BADS))
    if not top and k < 0.36:
        return ",@" + (rng.choice(SPLICE) if rng.random() < 0.96 else rng.choice(["a", "b", "#t"] + BADS))
    if not top and (d <= 0 or k < 0.55):
        return code(rng, 1)
    if not top and k < 0.6:
        return "'" + tpl(rng, d - 1)
    if not top and k < 0.63:
        return rng.choice(["(quasiquote (_unquote a))", "(_unquote a)", "(_unquote (f 2))", "`(p q)", "(_unquotesplicing c)"])
    return "(" + " ".join(tpl(rng, d - 1) for _ in range(rng.choice([0, 1, 2, 3, 4]))) + ")"


def make(rng, i):
    out = [PRE]
    for _ in range(rng.randint(3, 6)):
        k = rng.randint(0, 13)
        if k == 0:
            x = code(rng, 4)
            out.append("(list '%s (quote %s) (type '%s))" % (x, x, x))
        elif k == 1:
            out.append("(println '%s `%s)" % (code(rng, 3), code(rng, 2)))
        elif k <= 4:
            t = "`" + tpl(rng, 3, True)
            out.append(t if t[1] != "(" else "(rval %s)" % t)
        elif k <= 6:
            t = "`" + tpl(rng, 3, True)
            out.append("(defn t (a b) %s) (list (t 7 (list 8 9)) (t a \"z\") (t (list) 'g) (t 7 (list 8 9)))" % t)
        elif k == 7:
            # results are new each time: changes of one do not reach the text nor the next
            t = "`" + tpl(rng, 2, True)
            out.append("(defn t () %s) (def r1 (t)) (push 99 r1) (if (> (len r1) 1) (setf (nth 1 r1) 'changed)) (def r2 (t)) (push 'x r2 1) (list r1 r2 (t))" % t)
        elif k == 8:
            x = "(" + " ".join(code(rng, 2) for _ in range(rng.randint(1, 4))) + ")"
            op = rng.choice(["(push 5 z)", "(pop z)", "(setf (first z) 'other)", "(setf (last z) 4)", "(push 5 z 1)", "(append z z)", "(reverse z)", "(rest z)", "(map (lambda (w) w) z)"])
            out.append("(def z '%s) %s (list z (len z) '%s)" % (x, op, x))
        elif k == 9:
            t = tpl(rng, 2, True)
            out.append("(map (lambda (a) `%s) (list 1 \"two\" (list 3)))" % t)
        elif k == 10:
            out.append("(do (def i 0) (def acc (list)) (while (< i 3) (do (setf i (+ i 1)) (push `%s acc))) (list acc))" % tpl(rng, 2, True))
        elif k == 11:
            # used as program: the built code does what it says
            out.append("(list (eval `(+ ,a ,@c)) (eval `(list ,@c '%s)) (eval '(list a \"%s\" '%s)) (eval `(f (+ a ,(inc a)))))" % (code(rng, 1), wl.text(rng, 3, "abc "), code(rng, 2)))
        elif k == 12:
            out.append("(list `%s '%s)" % (rng.choice(["a", "5", "\"s\"", ",a", ",c", ",(f 1)", "nil", "#t", "2.5", "()", ",n"]), rng.choice(WORDS + ["5", "\"s\"", "()", "nil", "#f", "''a", "'`a", "'(,a ,@b)", "`(a ,b)"])))
        else:
            out.append(rng.choice(["(quote)", "(quote 1 2)", "(quasiquote)", "(quasiquote 1 2)", "'(a . b)", "(quote quote)", "(quasiquote (a (quote b)))", "''''a", "(list 'a 'b '(c 'd))"]))
    return Case(out)


def go():
    c = Check("P18", rule="quoted code of every kind and random templates with values and spliced parts, evaluated at top level, repeatedly in functions, callbacks and loops, changed afterwards, and executed; values, texts, effects and errors are compared with the model")
    c.compare(generate(make, c.n(3000), c.label("tpl")), kind="template")
    c.compare(generate(big.quasi, c.n(200), c.label("big quasi")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
