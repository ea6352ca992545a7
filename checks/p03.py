import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import gen

# places from which the failing call is reached; %s is the failing expression, the text may contain line breaks
WRAPS = ["(+ 1\n %s)", "(println \"a\" %s)", "(if #t\n\n %s 5)", "(if\n %s 1 2)", "(do (def t1 1) %s (println 5))", "(do\n\n\n(nop)\n%s)", "(while #t\n %s)", "(map (lambda (e)\n %s) (list 1 2))", "(reduce (lambda (e f)\n (do (nop)\n %s)) (list 1 2) 0)",
         "(apply (lambda (e)\n\n %s) (list 1))", "(eval '(do\n %s))", "(list 1 2\n (list %s))", "(def t2\n %s)", "(setf t3\n %s)", "(setf (first lst) %s)", "(return\n%s)", "(and #t\n%s)", "(or #f\n %s)", "(rm1\n %s)", "(rm2 5\n %s)", "(em1 %s)", "`(a ,%s\n b)", "(id (id\n(id %s)))",
         "(dict-set (make-dict) 1\n %s)", "(string \"multi\\nline ; text\" %s)", "; comment (\n %s", "(list \"text\nwith\nbreaks\" 5 %s)", "(not %s)", "(cl\n%s)", "(format \"{0}\" %s)", "(case1 %s)"]

FAIL = ["(no-such-fn 1)", "(/ 7 0)", "(nth 99 (list 1 2))", "(first '())", "(len 5)", "(+ 1 '(1))", "(setf undefined-name 1)", "(if 5 1 2)", "(not 7)", "(< #t #f)", "(map 5 (list 1))", "(reduce + 5 0)", "(apply + 7)", "(evalstr 5 6)", "(slice \"abc\")", "(dict-get 5 5)", "(int (list 1))", "(trace)", "(def 7 8)", "(fn (x))",
        "(while 5 1)", "(and 5)", "(quote)", "(return)", "(do 5)", "(sleep)", "(arg 50)", "(substr 1)", "(search 5 5 5 5 5)", "(reverse 5)", "(push 1 2)", "(~ 1.5)", "(format)", "(File-ReadAllText)", "(Math-Sin \"x\" 1)", "(make-dict 1)", "(rest 5)", "(last (list))", "(mod 1 0)", "(cons 1 2 3 4)", "(type)", "(sym)", "(str)", "(import)", "(defn q1)", "(lambda)", "(rm2 1)",
        "(push 1\n 5\n (+ 1 2))", "(slice 5\n (+ 1 2)\n 3)", "(reduce 5\n (list 1)\n (+ 1\n 2))", "(reduce +\n (+ 1 2)\n (id\n 2))", "(dict-set 5\n (+ 1 2)\n (id 3))", "(nth (+ 90\n 9)\n (list 1))", "(cons 1\n (list\n 2)\n (id\n 3))", "(search (id 5)\n (list\n 1)\n (+ 1 2)\n 4 (id\n5))", "(/ 7\n (- 1\n 1))", "(/ 7\n (+ 1 1)\n (- 1\n 1))", "(+ 1\n (list\n 1)\n (+ 2 3))", "(+ (id 1)\n (id 2)\n (id 3)\n (list\n) (id\n 5))", "(apply (id\n 5)\n (list 1))", "(map (id 5)\n (list\n 1))", "(Math-Pow \"x\"\n (+ 1 2))", "(replace \"a\"\n (string\n 1))", "(first (list\n 1)\n (id\n 2)\n (id 3))", "(no-such-fn (id\n 1)\n (id 2)\n (id\n 3))", "(format (id\n \"{3}\")\n (id 1)\n (id\n 2))", "(evalstr (id\n \"1\")\n (id 1)\n (id\n 2))"]

PRE = ("(def lst (list 1 2 3))\n(def t3 0)\n(defn id (x)\n  (rval x))\n(defn cl (x) (println x))\n(define-macro-eval rm1 (p) (do\n (nop) p))\n(define-macro-eval rm2 (p q)\n (list p q))\n(define-macro-expand em1 (p) '(list p 1))\n(defn case1 (x) (if (== x 1) 2 3))\n")


def wrap(rng, x, n):
    for _ in range(n):
        w = rng.choice(WRAPS)
        if x.startswith(";") and not w.startswith(";"):
            w = "(list\n%s)"
        x = w.replace("%s", x)
    return x


def fill(rng):
    return rng.choice(["", "\n", "\n\n", "(println \"x\")\n", "; comment \"text\n", "(def z \"a\nb\")\n", "  \t", "(nop) ", "\r\n", "(println 'a) ; (\n\n", "(id\n(id 5))\n", ";\n", "(def z \";\")\n", "(println \"\\n\\\"\")\n"])


def make(rng, i):
    mod = "m%d.fuel" % i
    f = rng.choice(FAIL)
    x = wrap(rng, f, rng.choice([0, 1, 1, 2, 2, 3, 4]))
    mode = i % 6
    files = {}
    if mode == 0:
        g = gen.G(rng, faults=0.03, depth=3)
        return Case([g.program(rng.randint(3, 9)) for _ in range(2)], module=rng.choice(["main", "x.fuel", "dir/y.fuel"]))
    body = "".join(fill(rng) for _ in range(rng.randint(0, 4)))
    pre = "".join(fill(rng) for _ in range(rng.randint(0, 4)))
    if mode == 1:     # in the text itself
        codes = [PRE + body + x + "\n(println \"after\")"]
    elif mode == 2:   # in a function of an earlier evaluation
        codes = [PRE + body + "(defn failing (a b)\n (do (println a)\n" + pre + x + "))\n", "\n" * rng.randint(0, 5) + wrap(rng, "(failing 1 2)", rng.randint(0, 2))]
    elif mode == 3:   # in a function of a module
        files[mod] = PRE + body + "(defn mfail (a)\n (do (nop)\n" + pre + x + "))\n(defn mok (a) (+ a 1))\n(defn mcall (f) (do (println \"calling\")\n (f 1)))\n"
        codes = ["(import \"%s\")\n(println (mok 1))\n" % mod + pre + wrap(rng, rng.choice(["(mfail 1)", "(map mfail (list 1))", "(do (mok 1) (mfail 2))", "(mcall (lambda (q)\n (no-such-fn2 q)))", "(mcall mfail)"]), rng.randint(0, 2))]
    elif mode == 4:   # module fails while it is loaded
        files[mod] = PRE + body + x + "\n(println \"after\")"
        codes = [PRE + "\n\n(println 1)\n" + wrap(rng, "(import \"%s\")" % mod, rng.randint(0, 2)), "\n\n" + wrap(rng, f, 1)]
    else:             # text evaluated at run time, macros, after succeeding calls
        s = wl.lit(body + x)
        codes = [PRE, pre + wrap(rng, "(evalstr %s)" % s, rng.randint(0, 2)), "(id 1)\n" + body + wrap(rng, f, 2)]
    return Case(codes, files=files, module=rng.choice(["main", "prog.fuel"]))


def marker(rng, i):
    """the failing call is the only call of an unknown function; its line is found by counting line breaks"""
    x = wrap(rng, "(boom-marker 1)", rng.randint(0, 4))
    pre = PRE + "".join(fill(rng) for _ in range(rng.randint(0, 6)))
    t = pre + x + "\n(println 2)"
    if "(em1" in x or "(rm" in x or "evalstr" in x:
        return None
    c = Case([t], note=1 + t[:t.index("boom-marker")].count("\n"))
    return c


def go():
    c = Check("P03", rule="failing calls of every kind at random places: nested in calls, special forms, callbacks, closures, macros, templates, modules, functions of earlier evaluations and evaluated text, with random layouts in front of them; reported line, module and message compared with the model, and for marked calls with the line counted in the text")
    c.compare(generate(make, c.n(4000), c.label("place")), kind="position", out=True)
    ms = generate(marker, c.n(1500), c.label("marker"), predict=False)
    for case, r in zip(ms, c.run([m.req() for m in ms])):
        if c.crash(r, case.show()):
            continue
        y = r.r[0]
        c.saw(case.codes)
        c.stat("marked lines")
        if y["k"] != "lisp" or y["line"] != str(case.note) or y["mod"] != "main" or "boom-marker" not in y["m"]:
            c.violation("marker:" + chk.key_of(case), "the failing call stands on line %d of main, reported: %s\n%s" % (case.note, chk.brief(y), case.codes[0]), {"case": case.show(), "observed": r.r})
    c.compare(generate(big.lines, c.n(250), c.label("big lines")), kind="big")
    c.compare(generate(big.deep_calls, c.n(100), c.label("big deep_calls")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
