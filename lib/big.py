"""Large workloads: programs whose sizes (counts, lengths, depths, line numbers) lie far above those of ordinary programs.

Every function gives a Case which is judged against the model like any other.
"""
import re
import chk
import wl


def Case(codes, **kw):
    """a name alone is no statement"""
    return chk.Case(["(rval %s)" % x if re.match(r"^[a-z]+$", x) else x for x in codes], **kw)


def size(rng, lo=9, hi=300):
    """log uniform size"""
    return int(lo * (hi / lo) ** rng.random())


def ints(rng, n):
    return [str(rng.randint(-99, 999)) for _ in range(n)]


def item(rng, i):
    return rng.choice([str(i), str(i), '"s%d"' % i, "(list %d)" % i, "'y%d" % i, "%d.5" % i, "nil", "#t"])


def spread(rng, xs):
    """joined with blanks and now and then a line break"""
    return "".join(x + (" " if rng.random() < 0.93 else "\n") for x in xs).rstrip()


def picks(rng, n, k=6):
    return sorted({0, n - 1, n // 2} | {rng.randrange(n) for _ in range(k)})


# ---------------------------------------------------------------- functions and arguments

def params(rng, i):
    """functions with many parameters, calls with many arguments"""
    np, na = size(rng, 5, 60), size(rng, 5, 120)
    if rng.random() < 0.3:
        np = rng.randint(0, 3)
    ps = ["p%d" % k for k in range(np)]
    body = "(do (println (argscount) (len (args))) (println %s) %s %s (println (args)) (list %s))" % (
        " ".join(ps) or "0", " ".join("(println %d (arg %d))" % (k, k) for k in picks(rng, max(np, na))),
        "(println \"more\" _additionalArgs (len _additionalArgs))" if na > np else "(println \"less\")", " ".join(ps))
    a = [item(rng, k) for k in range(na)]
    codes = ["(defn f (%s) %s)" % (spread(rng, ps), body), "(defn g (%s) (do (f %s) (setf %s 5) (list %s (args))))" % (" ".join(ps), spread(rng, a[:-1] + ["(argscount)"]), ps[-1] if ps else "gv", " ".join(ps))]
    codes.insert(0, "(def gv 0)")
    codes += ["(f %s)" % spread(rng, a), "(apply f (list %s))" % spread(rng, a), "(g %s)" % spread(rng, a[:rng.randint(0, na)]), "(f %s)" % " ".join(a[:rng.randint(0, 4)])]
    codes += ["(apply %s (list %s))" % (rng.choice(["+", "list", "*", "println", "-"]), " ".join(ints(rng, na)))]
    return Case(codes)


def applied(rng, i):
    """apply, eval and evalstr with much code"""
    n = size(rng, 8, 200)
    xs = ints(rng, n)
    op = rng.choice(["+", "-", "list", "println"])
    stm = ["(setf k (+ k %s))" % x for x in xs] + ["(println k)"]
    nest = "(+ k %s)" % xs[0]
    d = size(rng, 3, 40)
    for _ in range(d):
        w = rng.random()
        nest = "(eval '%s)" % nest if w < 0.5 else "(eval (quote (+ 1 %s)))" % nest if w < 0.8 else "(apply + (list 1 %s))" % nest
    s = "(+ k 1)"
    for _ in range(rng.randint(1, 5)):
        s = "(evalstr %s)" % wl.lit(s)
    return Case(["(def k 0) (defn f (a b) (list a b (argscount) (args)))", "(apply %s (list %s))" % (op, spread(rng, xs)), "(apply f (list %s))" % spread(rng, xs), "(apply f '(%s))" % spread(rng, xs),
                 "(eval '(do %s (+ k 1)))" % "\n".join(stm), "(evalstr %s)" % wl.lit("\n".join(stm) + "(+ k 7)"), "(eval '(%s %s))" % (op, " ".join(xs)),
                 "(evalstr %s)" % wl.lit("(list %s)" % " ".join(xs)), nest, s, "(evalstr %s)" % wl.lit("(println %s)\n" % wl.lit("x" * n * 5) + "\n" * n + "(no-such)"), "k"])


# ---------------------------------------------------------------- control

def control(rng, i):
    """long sequences, loops, conjunctions, deep nesting"""
    n = size(rng, 9, 250)
    k = i % 6
    if k == 0:
        st = ["(do (setf k (+ k 1)) (setf s (+ s (* k %d))))" % rng.randint(1, 9) if rng.random() < 0.3 else "(setf k (+ k %d))" % rng.randint(1, 5) for _ in range(n)]
        if rng.random() < 0.4:
            st.insert(rng.randrange(len(st)), "(return (list \"early\" k))")
        return Case(["(def k 0) (def s 0)", "(defn f () (do %s (list k s)))" % "\n".join(st), "(f)", "(println k s)", " ".join(x for x in st if "return" not in x) + " (list k s)"])
    if k == 1:
        m = size(rng, 100, 3000)
        return Case(["(def k 0) (def s 0)", "(while (< k %d) (do (setf k (+ k 1)) (setf s (+ s (%% k 7)))))" % m, "(list k s)",
                     "(defn f (n) (do (def j 0) (while #t (do (setf j (+ j 1)) (if (>= j n) (return j))))))", "(list (f %d) (f %d))" % (m // 2, rng.randint(1, 99)), "(list k s)"])
    if k == 2:
        op = rng.choice(["and", "or"])
        stop = rng.randrange(n) if rng.random() < 0.6 else n
        tr = "#t" if op == "and" else "#f"
        ev = "#f" if op == "and" else "#t"
        parts = ["(b %d %s)" % (j, ev if j == stop else tr) for j in range(n)]
        return Case(["(defn b (n v) (do (print n) (rval v)))", "(%s %s)" % (op, spread(rng, parts)), "(if (%s %s) (println \"yes\") (println \"no\"))" % (op, " ".join(parts))])
    if k == 3:
        d = size(rng, 8, 100)
        x = "(println \"in\" k)"
        for j in range(d):
            w = rng.randrange(5)
            x = ["(if (>= k 0) %s (println \"else\"))", "(do (setf k (+ k 1)) %s)", "(if (< k 0) (println \"then\") %s)", "(do %s (setf k (+ k 1)))", "(list %d %%s)" % j][w] % x
        return Case(["(def k 0)", x, "k", "(defn f () %s)" % x, "(f)", "k"])
    if k == 4:
        d = size(rng, 3, 8)
        vs = ["i%d" % j for j in range(d)]
        x = "(if (== (+ %s) %d) (return (list %s)))" % (" ".join(vs), rng.randint(0, d), " ".join(vs))
        for v in reversed(vs):
            x = "(do (setf %s 0) (while (< %s 2) (do %s (setf %s (+ %s 1)))))" % (v, v, x, v, v)
        return Case(["(defn f () (do %s %s (list \"end\" %s)))" % (" ".join("(def %s 0)" % v for v in vs), x, " ".join(vs)), "(f)", "(list (f) (f))"])
    op = rng.choice(["+", "-", "*", "list", "println", "print", "append"])
    xs = ["(v %d)" % j for j in range(n)]
    if op == "append":
        xs = ["(list (v %d) %d)" % (j, j) for j in range(n)]
    return Case(["(def s 0) (defn v (n) (do (print n \"\") (setf s (+ s n)) (% (* n s) 97)))", "(%s %s)" % (op, spread(rng, xs)), "s"])


def arithmetic(rng, i):
    n = size(rng, 8, 150)
    op = rng.choice(["+", "-", "*", "+", "-", "/", "%", "+"])
    xs = [str(rng.choice([1, 2, 3, -1, 7, 100000, 2147483647, -2147483648, 65536, rng.randint(-9999, 9999)])) if op not in "/%" else str(rng.choice([1, -1, 1, 2, 3])) for _ in range(n)]
    xs[0] = str(rng.choice([2147483647, -2147483648, 99999999, 12345678]))
    if rng.random() < 0.4:
        xs[rng.randrange(n)] = rng.choice(["2.5", "1e5", "-0.25", "3.0"])
    if rng.random() < 0.15 and op == "+":
        xs[rng.randrange(n)] = '"t"'
    return Case(["(%s %s)" % (op, spread(rng, xs)), "(def k 3) (%s k %s)" % (op, " ".join(xs)), "(reduce (lambda (a b) (%s b a)) (list %s) 1)" % (op, " ".join(xs))])


# ---------------------------------------------------------------- data

def lists(rng, i):
    n = size(rng, 20, 400)
    xs = [str((j * 7) % 1000) if rng.random() < 0.7 else '"e%d"' % j for j in range(n)]
    at = picks(rng, n, 4)
    codes = ["(def l (list %s)) (def m l)" % spread(rng, xs)]
    for p in at:
        codes.append("(list (nth %d l) (search %s l) (len l))" % (p, xs[p]))
    ops = ["(setf (nth %d l) 'new)" % at[-1], "(setf (nth %d l) \"p\")" % rng.choice(at), "(push 'pushed l %d)" % rng.choice(at), "(pop l %d)" % rng.choice(at), "(pop l)", "(push (list 1) l)", "(setf (last l) 'z)", "(setf (first l) 'a)",
           "(map (lambda (x) (list x)) l)", "(reduce (lambda (x acc) (+ acc 1)) l 0)", "(reverse l)", "(append l '(1 2) m)", "(rest l)", "(list (first l) (last l))", "(cons 'c l)", "(search 'new l)", "(search \"p\" l)",
           "(== l m)", "(== l (append l ()))", "(def l2 (append l (list)))", "(len (append l l m))", "(setf (nth %d m) 5)" % rng.choice(at), "(equal (reverse (reverse l)) l)", "(!= l (rest l))"]
    codes += rng.sample(ops, 9) + ["l", "m", "(list (len l) (len m) (last m))"]
    return Case(codes)


def nested(rng, i):
    """deeply nested data: printing, equality, quoting, assignment"""
    d = size(rng, 5, 60)
    x = "@"
    for j in range(d):
        w = rng.randrange(4)
        x = ["(%s)", "(%s " + str(j) + ")", "(" + str(j) + " %s)", "(\"s\" %s a)"][w] % x
    other = x.replace("@", rng.choice(["2", "1.0", "\"1\"", "(1)", "()"]))
    x = x.replace("@", "1")
    return Case(["(def l '%s) (def m '%s)" % (x, other), "l", "(== l m)", "(== l '%s)" % x, "(str l)", "(println l m)", "(first l)", "(def k (list l l)) (== (first k) (last k))", "(quote %s)" % x, "`%s" % x, "(equal (list l) (list '%s))" % x, "(len (str l))", "(format \"<{0}>\" l)"])


def assign(rng, i):
    n = size(rng, 5, 80)
    d = size(rng, 2, 25)
    ins = "(list %s)" % " ".join(ints(rng, n))
    x = ins
    for _ in range(d):
        x = "(list 0 %s 9)" % x
    acc = "l"
    for _ in range(d - 1):
        acc = "(rval (nth 1 %s))" % acc
    last = "(nth 1 %s)" % acc
    acc = "(rval %s)" % last
    p = rng.choice(picks(rng, n))
    return Case(["(def l %s) (def al l)" % x, "(setf (nth %d %s) 'changed)" % (p, acc), "l", "(setf (nth %d %s) (+ 1 1))" % (n - 1, acc), "(setf (last %s) (list 'last))" % acc, "(setf (first %s) 'first)" % acc, "(list l (== l al))", "(setf (nth %d %s) 1)" % (n, acc), "(setf %s 'gone)" % last, "al",
                 "(setf (nth 1 %s) 5)" % acc, "l"])


def strings(rng, i):
    """long literals, names and nested texts"""
    n = size(rng, 60, 6000)
    s = wl.text(rng, n) if rng.random() < 0.6 else "".join(wl.hostile_text(rng) for _ in range(n // 8))
    if rng.random() < 0.3:
        s = rng.choice(["ab", "a\\n", "(;", "\"", "\\", "x\n", "' ,@", "\t"]) * (n // 2)
    s = s.replace("\x00", "")
    nm = "n" + "".join(rng.choice("abcxyz-*+?!019") for _ in range(size(rng, 20, 800)))
    cut = rng.randint(0, max(0, len(s) - 1))
    return Case(["(def s %s)" % wl.lit(s), "s", "(len s)", "(def %s 5) (+ %s 1)" % (nm, nm), "'(%s %s %s)" % (nm, wl.lit(s), nm[:-1]), "(list (slice s %d 10) (nth %d s) (last s))" % (cut, cut), "(== s (+ s \"\"))", "(println s)", "(evalstr (+ \"(quote (\" (str '(1 %s)) \"))\"))" % nm,
                 "(= s (+ (slice s 0 %d) (slice s %d -1)))" % (cut, cut), "(str (list s))", "(search (slice s %d 12) s)" % cut, "(list (upper-case s) (lower-case s) (trim s) (reverse s))", "(replace s \"a\" \"<>\")"])


def quasi(rng, i):
    n = size(rng, 8, 120)
    parts = []
    for j in range(n):
        k = rng.random()
        parts.append(str(j) if k < 0.4 else ",(+ k %d)" % j if k < 0.55 else ",k" if k < 0.65 else ",@l" if k < 0.75 else ",@(list %s)" % " ".join(ints(rng, rng.randint(0, 12))) if k < 0.85 else "(a ,(* k %d) ,@l b)" % j if k < 0.95 else "'q%d" % j)
    d = size(rng, 3, 30)
    x = ",(+ k 1)"
    for j in range(d):
        x = rng.choice(["(%s)", "(x %s)", "(%s ,@l)", "(,k %s y)"]) % x
    return Case(["(def k 3) (def l (list %s))" % " ".join(ints(rng, size(rng, 2, 60))), "`(%s)" % spread(rng, parts), "(len `(%s))" % " ".join(parts), "(defn f (k) `(%s))" % " ".join(parts), "(f 1)", "(== (f 2) (f 2))", "`%s" % x, "'(%s)" % spread(rng, parts), "(list k l)"])


# ---------------------------------------------------------------- definitions

def variables(rng, i):
    n = size(rng, 20, 300)
    vs = ["v%s%d" % (rng.choice("abz"), j) for j in range(n)]
    if i % 3 == 0:
        vs[-1] += "y" * size(rng, 30, 2000)
        vs[0] += "x" * size(rng, 30, 300)
    codes = [" ".join("(def %s %d)" % (v, j) for j, v in enumerate(vs[k:k + 25], k)) for k in range(0, n, 25)]
    codes += ["(vars)", "(delvar '%s)" % rng.choice(vs), "(delvar '%s)" % vs[-1], "(list %s)" % " ".join(rng.choice(vs) for _ in range(6)), "(setf %s 'changed)" % vs[n // 2], "(vars)"]
    loc = " ".join("(def %s (+ x %d))" % (v, j) for j, v in enumerate(vs[:size(rng, 5, n + 1)]))
    codes += ["(defn f (x) (do %s (list %s)))" % (loc, " ".join(vs)), "(f 1000)", "(list %s)" % " ".join(vs[-5:])]
    return Case(codes)


def deep_calls(rng, i):
    """deep recursion, chains of functions, failures far inside, and what is left afterwards"""
    n = size(rng, 10, 150)
    k = i % 3
    if k == 0:
        codes = ["(defn f (n a)\n (do (def loc n)\n (if (> n 0) (f (- n 1) (+ a loc))\n (list a n)) ))", "(f %d 0)" % n, "(defn g (n)\n(if (> n 0)\n (+ 1 (g (- n 1)))\n (no-such-function n)))", "(g %d)" % n, "(f 3 0)", "(g 1)",
                 "(defn h (n) (do (def r (if (> n 0) (h (- n 1)) (list))) (list n r)))", "(h %d)" % min(n, 60), "(g 0)"]
    elif k == 1:
        n = min(n, 60)
        codes = ["\n".join("(defn c%d (x)%s (do (setf t (+ t 1)) (c%d (+ x %d))))" % (j, "\n" if rng.random() < 0.4 else "", j + 1, j) for j in range(n)) + "(def t 0)", "(defn c%d (x)\n\n (list x t))" % n, "(c0 5)", "(defn c%d (x)\n\n (car x))" % n, "(c0 5)", "t"]
    else:
        n = min(n, 40)
        x = "(list %s)" % " ".join("x%d" % j for j in range(n))
        for j in reversed(range(n)):
            x = "(lambda (x%d) %s)" % (j, x)
        ap = "f"
        for j in range(n):
            ap = "(apply %s (list %d))" % (ap, j)
        codes = ["(def x3 'global) (def f %s)" % x, ap, "(def y 1) (defn mk (n) (if (> n 0) (do (def z n) (def inner (mk (- n 1))) (lambda () (do (setf z (+ z 1)) (list z (inner))))) (lambda () (do (setf y (+ y 1)) (rval y)))))", "(def c (mk %d)) (c)" % min(n, 25), "(c)", "(def d (mk 3)) (list (d) (c))"]
    return Case(codes)


def macros(rng, i):
    """run time macros with many parameters and long, deep bodies"""
    n = size(rng, 4, 40)
    ps = ["q%d" % j for j in range(n)]
    w = i % 3
    if w == 0:
        body = "(list %s)" % spread(rng, [rng.choice(ps + ["7", "\"s\"", "(list %s)" % rng.choice(ps)]) for _ in range(size(rng, 5, 80))])
    elif w == 1:
        body = "(do %s)" % " ".join("(println %d %s)" % (j, rng.choice(ps)) for j in range(size(rng, 5, 60)))
    else:
        body = rng.choice(ps)
        for j in range(size(rng, 5, 30)):
            body = rng.choice(["(list %s %s)", "(if (== 1 1) %s %s)", "(do (rval %s) (list %s))", "(list (list %s) %s)"]) % (rng.choice(ps), body)
    a = ["(t %d)" % j if rng.random() < 0.3 else str(j) if rng.random() < 0.6 else "(+ 1 %d)" % j if rng.random() < 0.7 else "g" for j in range(n)]
    return Case(["(def g 5) (defn t (x) (do (print x \"\") (rval x)))", "(define-macro-eval m (%s) %s)" % (" ".join(ps), body), "(m %s)" % spread(rng, a), "(defn f (x) (m %s))" % " ".join(rng.choice(["x", y]) for y in a), "(f 3)", "(m %s)" % " ".join(a[:-1]), "(list (m %s) g)" % " ".join(reversed(a))])


def expansions(rng, i):
    """compile time macros used often, deep inside, and many of them"""
    n = size(rng, 5, 60)
    w = i % 3
    if w == 0:
        x = "(m1 k)"
        for j in range(size(rng, 5, 40)):
            x = rng.choice(["(list %s)", "(do (println 1) %s)", "(if (== 1 1) %s 2)", "(list 1 %s 2)", "(list (m2 3) %s)"]) % x
        codes = [x, "(defn f (k) %s)" % x, "(f 2)", x]
    elif w == 1:
        codes = ["(list %s)" % spread(rng, [rng.choice(["(m1 %d)", "(m2 %d)", "(list (m1 %d))"]) % j for j in range(n)]), "(do %s)" % "\n".join("(println (m%d %d))" % (rng.choice([1, 2]), j) for j in range(n))]
    else:
        codes = [" ".join("(define-macro-expand r%d (x) (list '+ %d 'x))" % (j, j) for j in range(n)), "(list %s)" % " ".join("(r%d %d)" % (j, j) for j in range(n)), "(r%d (r%d (r0 k)))" % (n - 1, n // 2)]
    case = Case(["(def k 5) (define-macro-expand m1 (x) (list '+ 'x 1)) (define-macro-expand m2 (x) (list 'list 'x 'x))"] + codes)
    return case


# ---------------------------------------------------------------- text

def fill(rng):
    return rng.choice(["", "", "", " ", "\t", "; comment", "; (", ";", "  ; \"", "(def u 1)", "(setf u (+ u 1))", "(println u)", "(def str1 \"a\nb\nc\")"])


def lines(rng, i):
    """failures and calls on lines far from the start"""
    n = size(rng, 60, 2500)
    body = [fill(rng) if rng.random() < 0.3 else "" for _ in range(n)]
    where = rng.randrange(n // 2, n)
    boom = rng.choice(["(no-such 1)", "(car 5)", "(bad (ff 1))", "(/ 1 0)", "(ff 1)", "(list 1\n 2\n (nth 9 (list 1)))", "(if #t\n(do (car\n 1)))", "(evalstr \"\n\n(no-such)\")"])
    body.insert(where, boom)
    pre = ["(def u 0)"] + [""] * size(rng, 1, 1500)
    return Case(["\n".join(pre) + "(defn ff (x)\n\n (/ x 0))\n", "\n".join(["(def u 0)"] + body), "(ff 2)", "\n" * size(rng, 1, 600) + "(println u)\n(ff 3)"])


# ---------------------------------------------------------------- printing, modules, texts

def printed(rng, i):
    n = size(rng, 8, 150)
    xs = [item(rng, j) for j in range(n)]
    t = wl.text(rng, size(rng, 50, 5000))
    return Case(["(println %s)" % spread(rng, xs), "(print %s)" % " ".join(xs), "(def t %s) (println t t \"end\") (print (list t t))" % wl.lit(t), "(println (list %s))" % spread(rng, xs), "(str (list %s))" % " ".join(xs), "(def d (make-dict)) " + " ".join("(dict-set d %d %s)" % (j, x) for j, x in enumerate(xs[:60])) + " (println d (len d))",
                 "(def k 0) (while (< k %d) (do (print k \"\") (setf k (+ k 1))))" % size(rng, 50, 600), "(format \"{0}|{1,-300}|{2,%d}\" t %d \"x\")" % (size(rng, 10, 4000), n)])


def modules(rng, i):
    """many modules, and long chains of modules"""
    n = size(rng, 5, 30)
    files = {}
    pre = "b%d_%d_" % (i, rng.randrange(10 ** 6))
    for j in range(n):
        files["%sm%d.fuel" % (pre, j)] = "%s(def mv%d %d)%s(defn mf%d (x) (do (setf mv%d (+ mv%d x)) (list x mv%d)))%s(println \"module %d\")" % (
            "(import \"%sm%d.fuel\")\n" % (pre, j + 1) if i % 2 and j + 1 < n else "", j, j, "\n" * rng.randint(0, 3), j, j, j, j, "\n\n(defn bad%d (x)\n (car x))" % j, j)
    imp = "(import \"%sm0.fuel\")" % pre if i % 2 else rng.choice(["(import %s)" % " ".join("\"%sm%d.fuel\"" % (pre, j) for j in range(n)), " ".join("(import \"%sm%d.fuel\")" % (pre, j) for j in range(n))])
    use = rng.sample(range(n), min(n, 4)) + [n - 1, 0]
    return Case([imp, "(list %s)" % " ".join("(mf%d %d)" % (j, j) for j in use), "(list %s)" % " ".join("(rval mv%d)" % j for j in use)] + ["(bad%d 5)" % j for j in use[:3]] + ["(import \"%sm%d.fuel\")" % (pre, use[0]), "(mf%d 1)" % use[0], "(mf%d 1)" % (n - 1)], files=files)


def malformed(rng, i):
    """long or deeply nested texts with one fault, and the same without"""
    n = size(rng, 10, 400)
    if i % 2:
        good = ["(println %d)" % j if rng.random() < 0.8 else rng.choice(["; ) (", "(def q%d '(1 (2 \"(\") 3))" % j, "(list \")\" (list %d))" % j]) for j in range(n)]
        bad = list(good)
        p = rng.randrange(n)
        bad[p] = rng.choice(["(println %d" % p, "(println %d))" % p, ")", "(", "(println \"open)", "(println ')", "(list 1 (list 2)"])
        good, bad = "\n".join(good), "\n".join(bad)
    else:
        d = size(rng, 10, 120)
        x = "(println 5)"
        for j in range(d):
            x = rng.choice(["(do %s)", "(list %s)", "(if #t %s)", "(list %s\n 1)"]) % x
        good = "(println \"start\") " + x
        ps = [j for j, ch in enumerate(good) if ch in "()"]
        p = rng.choice(ps)
        bad = [good[:p] + good[p + 1:], good[:p] + good[p] + good[p:], good[:p], good[:rng.choice(ps[len(ps) // 3:])]][rng.randrange(4)]
    return Case(["(def q0 0) (println q0)", bad, "(rval q0)", good, "(rval q0)"])


# ---------------------------------------------------------------- dictionaries, files, numbers, input

def dicts(rng, i):
    n = size(rng, 20, 800)
    key = rng.choice(["n", "(string \"k\" n)", "(list n n)", "(* n 0.5)", "(string \"%s\" n)" % ("x" * size(rng, 10, 600)), "(- 0 n)", "(list (list n) \"a\")"])
    m = size(rng, 1, n)
    one = lambda j: "(do (def n %d) (dict-get d %s))" % (j, key)
    return Case(["(def d (make-dict)) (def e d) (def n 0) (while (< n %d) (do (setf n (+ n 1)) (dict-set d %s n)))" % (n, key), "(len d)", "(list %s)" % " ".join(one(rng.randint(0, n + 1)) for _ in range(6)), "(dict-keys d)", "(println d)",
                 "(setf n 0) (while (< n %d) (do (setf n (+ n 1)) (dict-remove d %s)))" % (m, key), "(list (len d) (len e) %s %s)" % (one(m), one(n)), "(dict-keys e)", "(dict-contains-value d %d)" % rng.randint(m, n), "(do (def n %d) (dict-contains-key d %s))" % (rng.randint(1, n), key),
                 "(map (lambda (k) (dict-set d k 'again)) (dict-keys d)) (list (len d) d)", "(dict-clear e) (list d e (len d))"])


def traced(rng, i):
    n = size(rng, 30, 1500)
    s = wl.text(rng, size(rng, 20, 3000), "abc xyz")
    return Case(["(trace #t) (def n 0) (while (< n %d) (do (setf n (+ n 1)) (%s n)))" % (n, rng.choice(["print", "println", "print n"])), "(len (gettrace))", "(gettrace)", "(print %s) (len (gettrace))" % wl.lit(s), "(def n 0) (while (< n %d) (do (setf n (+ n 1)) (trace %s) (print n)))" % (rng.randint(2, 50), rng.choice(["#t", "(== (% n 2) 0)"])), "(trace #f) (gettrace)", "(println 1) (gettrace)"])


def formats(rng, i):
    n = size(rng, 5, 300)
    xs = ["1", "2.5", wl.lit(wl.text(rng, size(rng, 1, 400))), "'(a b)"]
    f = "".join(rng.choice(["{0}", "{1}", "{2}", "{3}", "{0,5}", "{1,-%d}" % rng.randint(1, 200), "{2,%d}" % rng.randint(1, 900), "text ", "\n", "%s", "{ }"]) for _ in range(n))
    return Case(["(format %s %s)" % (wl.lit(f), " ".join(xs)), "(len (format %s %s))" % (wl.lit(f), " ".join(xs)), "(format %s %s)" % (wl.lit("x" * n + "{0}" + "y" * n), xs[2]), "(format %s %s)" % (wl.lit("y" * n + "{4}"), " ".join(xs)), "(println (format %s %s))" % (wl.lit("{0}" * n), "\"{1}\" 5")])


def numbers(rng, i):
    codes = []
    for _ in range(12):
        n = size(rng, 12, 400)
        t = rng.choice(["0" * n + str(rng.randint(0, 99999)), wl.text(rng, n, "0123456789"), "0." + "0" * n + "1", "1." + wl.text(rng, n, "0123456789"), "1" + "0" * (n % 300) + ".5", "-" + "0" * n + "7", "1e" + "0" * n + "5", "x" * n, " " * n + "5", "5" + " " * n, "0." + "3" * n + "e" + rng.choice(["1", "-2", "10"]), "9" * (n % 40 + 1)])
        codes.append(rng.choice(["(parse-integer %s)", "(parse-float %s)", "(int %s)", "(float %s)", "(list (typestr %s))", "(len (str (sym %s)))"]) % wl.lit(t))
        if re.match(r"-?\d[\d.]*\Z", t):
            codes.append("(list %s (typestr %s) (str %s))" % (t, t, t))
    return Case(codes)


def inputs(rng, i):
    n = size(rng, 20, 1500)
    ls = [rng.choice(["", "a", "line %d" % j, "x" * size(rng, 10, 300)]) for j in range(n)]
    for _ in range(2):
        ls[rng.randrange(n)] = wl.text(rng, size(rng, 200, 40000), "abcdef ;\"()\\")
    inp = "\n".join(ls) + rng.choice(["\n", ""])
    return Case(["(def l (readline)) (println (len l) l)", "(def n 0) (while (< n %d) (do (setf n (+ n 1)) (def l (readline)) (println n (len l))))" % rng.randint(n // 2, n), "(list (readline) (readline))", "(def n 0) (while (< n %d) (do (setf n (+ n 1)) (print (readline) \"\")))" % n], inp=inp)


def written(rng, i):
    n = size(rng, 1000, 300000)
    fs = ["w%d_%d" % (i, j) for j in range(size(rng, 2, 30))]
    piece = wl.text(rng, 50, "abc\n\r\t xyz")
    files = {fs[0]: (piece * (n // 50))[: n - n % 50 + rng.randint(0, 49)]}
    codes = ["(def t (File-ReadAllText \"%s\")) (len t)" % fs[0]]
    codes += ["(File-WriteAllText \"%s\" (string t %d))" % (f, j) for j, f in enumerate(fs[1:])]
    codes += ["(map len (map File-ReadAllText (list %s)))" % " ".join('"%s"' % f for f in fs), "(def u (File-ReadAllText \"%s\")) (list (== t (slice u 0 %d)) (slice u %d -1) (nth %d u))" % (fs[-1], len(files[fs[0]]), len(files[fs[0]]) - 9, len(files[fs[0]]) // 2), "(File-WriteAllText \"%s\" (string t t)) (== (string t t) (File-ReadAllText \"%s\"))" % (fs[0], fs[0]), "(File-WriteAllText \"%s\" \"short\") (File-ReadAllText \"%s\")" % (fs[0], fs[0])]
    return Case(codes, files=files)


ANYBIG = [params, applied, control, arithmetic, lists, nested, assign, strings, quasi, variables, deep_calls, macros, expansions, lines, printed, modules, malformed, dicts, traced, formats, numbers, inputs]


def mixed(rng, i):
    return ANYBIG[i % len(ANYBIG)](rng, i)
