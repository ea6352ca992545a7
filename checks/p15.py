import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import json, re

ALIAS = {"car": "first", "cdr": "rest", "lambda": "fn", "=": "==", "equal": "==", "!": "not", "define-macro": "define-macro-eval", "defn": "def", "gdefn": "gdef", "<<": "left-shift", ">>": "right-shift", "|": "binary-or", "&": "binary-and", "^": "binary-xor", "~": "binary-not"}
TABLE = {"0": "Math-Pi args argscount flush make-dict need-l-value readline tickcount",
         "1": "! File-Exists File-ReadAllText Math-Abs Math-Acos Math-Asin Math-Atan Math-Ceiling Math-Cos Math-Cosh Math-Exp Math-Floor Math-Log Math-Log10 Math-Round Math-Sin Math-Sinh Math-Sqrt Math-Tan Math-Tanh Math-Truncate arg car cdr delvar dict-clear dict-keys eval evalstr first float int last len lower-case not parse-float parse-integer quasiquote quote rest return reverse rval str sym trace trim type typestr upper-case ~ sleep",
         "2": "!= & < << <= = == > >= >> File-WriteAllText Math-Pow ^ | apply def dict-contains-key dict-contains-value dict-get dict-remove equal fn gdef lambda map nth setf while",
         "3": "define-macro define-macro-eval define-macro-expand defn dict-set gdefn reduce replace slice"}
COUNTS = {n: (int(k), int(k)) for k, v in TABLE.items() for n in v.split()}
COUNTS.update({"if": (2, 3), "pop": (1, 2), "push": (2, 3), "search": (2, 4), "format": (1, 99)})
ARGS = ["1", "\"s\"", "'(1 2)", "(list 3 4)", "nil", "(tr 1)", "#t", "2.5", "'sym", "v", "lst", "(make-dict)", "(lambda (q) q)"]


def builtin_case(rng, i):
    """wrong counts: an error with name and count, arguments evaluated, no effect"""
    codes = ["(def v 5) (def lst (list 1 2 3)) (def d (make-dict)) (dict-set d 1 2) (defn tr (x) (do (println \"arg\" x) (rval x)))"]
    want = [None]
    for _ in range(10):
        n = rng.choice(sorted(COUNTS))
        lo, hi = COUNTS[n]
        k = rng.choice([x for x in range(0, 8) if not lo <= x <= hi])
        first = rng.choice(["v", "lst", "d", "'v", "newname"])
        a = [first] + [rng.choice(ARGS) for _ in range(7)]
        call = "(%s)" % " ".join([n] + a[:k])
        want.append((n, k, lo, hi))
        codes.append(call if rng.random() < 0.7 else "(do (println \"b\") %s (println \"never\"))" % call)
        codes.append("(list v lst d newname)")
        want.append("state")
    return Case(codes, note=want)


def arg(rng, d=1):
    k = rng.randint(0, 12)
    if k <= 4:
        return str(rng.randint(0, 99))
    if d and k == 5:
        return "(list %s)" % " ".join(arg(rng, 0) for _ in range(rng.randint(0, 3)))
    if d and k == 6:
        return call(rng, rng.choice("fghv"), d - 1)
    return rng.choice(["\"s\"", "nil", "'sym", "'(1 2)", "#f", "2.5", "()", "(println 7)", "(lambda (z) (list z (args)))", "x", "(args)", "(argscount)"])


def call(rng, f, d=1, lo=0):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
    a = [arg(rng, d) for _ in range(n)]
    k = rng.randint(0, 7)
    if k == 0:
        return "(apply %s (list %s))" % (f, " ".join(a))
    if k == 1:
        return "(map %s (list %s))" % (f, " ".join(a))
    if k == 2:
        return "(reduce %s (list %s) 5)" % (f, " ".join(a))
    return "(%s %s)" % (f, " ".join(a))


def body(rng, ps, d):
    parts = []
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(0, 10)
        if k <= 2:
            parts.append("(println \"a\" (args) (argscount))")
        elif k == 3:
            parts.append("(println %s)" % (" ".join(ps) or "0"))
        elif k == 4:
            parts.append("(println \"n\" (if (> (argscount) %d) (arg %d) \"-\"))" % (k2 := rng.randint(0, 4), k2))
        elif k == 5:
            parts.append("(arg %s)" % rng.choice(["0", "1", "2", "7", "-1"]))
        elif k == 6:
            parts.append("(println \"more\" _additionalArgs)" if rng.random() < 0.5 else "(println (len (args)))")
        elif k == 7 and d:
            parts.append(call(rng, rng.choice("gh") if d > 1 else "h", 0))
        elif k == 8 and ps:
            parts.append("(setf %s %s)" % (rng.choice(ps), arg(rng, 0)))
        elif k == 9:
            parts.append("(do (def l (lambda (q) (list q (args) (argscount) %s))) (println (l 1 2)))" % (ps[0] if ps else "1"))
        else:
            parts.append("(println (map (lambda (e) (list e (argscount) (arg 0))) (args)))")
    return "(do %s (list %s (args)))" % (" ".join(parts), " ".join(ps))


def user_case(rng, i):
    codes = []
    for n, d in (("h", 0), ("g", 1), ("f", 2)):
        ps = ["x", "y", "z", "w"][:rng.choice([0, 1, 1, 2, 2, 3, 4])]
        codes.append("(%s %s (%s) %s)" % (rng.choice(["defn", "gdefn"]), n, " ".join(ps), body(rng, ps, d)))
    codes.append("(defn v () (list (args) (argscount))) (def x 0) (def y 0)")
    codes.append("(defn r (n m) (if (> n 0) (do (r (- n 1) n (args)) (println n m (args) (argscount)) (list n m)) (args)))")
    for _ in range(6):
        codes.append("(println %s)" % call(rng, rng.choice("fgh")))
    codes.append("(r %d)" % rng.randint(0, 4))
    codes.append(rng.choice(["(args)", "(arg 0)", "(argscount)", "(println _additionalArgs)"]))
    return Case(codes)


def go():
    c = Check("P15", rule="functions with 0 to 4 parameters called with 0 to 6 arguments of all kinds, directly, nested, by map, reduce and apply, reading args, argscount, arg and the additional arguments, compared with the model; all builtins with a fixed number of arguments called with wrong counts: error with name and counts, nothing changed")
    c.compare(generate(user_case, c.n(2500), c.label("user")), kind="bind")
    cases = generate(builtin_case, c.n(600), c.label("counts"), predict=False)
    for case, r in zip(cases, c.run([x.req() for x in cases])):
        if c.crash(r, case.show()):
            continue
        for code, w, y in zip(case.codes, case.note, r.r):
            if w is None:
                continue
            c.saw(code)
            if w == "state":
                if y.get("v") != "(i5 (i1 i2 i3) {i1:i2} 'newname)":
                    c.violation("effect:" + chk.key_of(case), "a call with a wrong number of arguments changed something: %s" % chk.brief(y), {"case": case.show(), "observed": r.r})
                    break
                continue
            n, k, lo, hi = w
            c.stat("wrong counts")
            m = y.get("m", "")
            ok = y["k"] == "lisp" and re.match(r"Bad argument count in (%s|%s), has %d expected" % (re.escape(n), re.escape(ALIAS.get(n, n)), k), m)
            if not ok and n in ("pop", "push", "search", "format", "sleep", "fn", "lambda"):
                ok = y["k"] == "lisp" and m.startswith("Bad argument count")
            if not ok or "never" in y["o"]:
                c.violation("count:%s:%d" % (n, k), "%s with %d arguments (expected %d to %d): %s" % (n, k, lo, hi, chk.brief(y)), {"case": Case([case.codes[0], code]).show(), "observed": y})
    c.compare(generate(big.params, c.n(250), c.label("big params")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
