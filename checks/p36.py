import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
from chk import Check, Case, generate, main
import big, build, chk, wl, runner
import refinterp as R
from refinterp import Fn, Lst, Raw, Sym, Scope, NIL, UNDEF, FuelError

LIB = os.path.join(build.REPO, "Library/fuellib.fuel")


# ---------------------------------------------------------------- models of the library functions, by their documentation
def nth(i, x):
    v = list(x) if R.isstr(x) else R.items(x)
    if not 0 <= i < len(v):
        raise FuelError()
    return R.val(v[i])


def length(x):
    if isinstance(x, R.Dic):
        return len(x.d)
    return len(x) if R.isstr(x) else len(R.items(x))


def second(x):
    if length(x) < 2:
        raise R.Unsupported("no second element")
    return nth(1, x)


def find(key, l):
    for i in range(length(l)):
        if R.equal(R.val(key), nth(i, l)):
            return i
    return -1


def syms(n):
    return [Sym("p%d" % i) for i in range(n)]


def call_expr(fcn, meth, obj, n):
    return Lst([fcn] + ([] if obj is NIL else [obj]) + [Sym(R.tostr(meth))] + syms(n))


def native_expr(prefix, cls, name, net, static, n):
    if static:
        return Lst([Sym("defn"), prefix + name, Lst(syms(n)), call_expr(Sym("call-static"), net, cls, n)])
    return Lst([Sym("defn"), prefix + name, Lst([Sym("obj")] + syms(n)), call_expr(Sym("call"), net, Sym("obj"), n)])


def install(I):
    m = Scope("lib", I.g, "lib")
    I.modules["Library/fuellib.fuel"] = m

    def fn(name, n, f, special=False):
        def w(a, s):
            if not special:
                a = (list(a) + [NIL] * n)[:n]
                a = [R.val(x) for x in a]
                return f(*a)
            return f(a, s)
        m.vars[name] = Fn(w, "(" + name + ")", special=special, name=name)
    fn("isNET", 0, lambda: False)
    fn("isCpp", 0, lambda: True)
    fn("isHaxe", 0, lambda: False)
    fn("second", 1, second)
    fn("length", 1, length)
    fn("strlen", 1, length)
    fn("dict-len", 1, length)
    fn("find", 2, find)
    fn("arg-list-expression", 1, lambda n: Lst(syms(n)))
    fn("arg-list-with-obj-expression", 2, lambda o, n: Lst([o] + syms(n)))
    fn("create-call-expression", 4, call_expr)
    fn("create-native-method-expression", 6, native_expr)

    def foreach(a, s):
        c, f = R.val(a[0]), R.val(a[1])
        n = length(c)
        t = Scope("foreach", I.g, "lib", m)
        t.prev, t.depth = s, s.depth + 1
        for i in range(n):
            I.call(f, [nth(i, c)], t)
        return UNDEF
    fn("foreach", 2, foreach, True)
    m.vars["foreach"].special = False

    def dotimes(a, s):
        name = a[0].v[0].name
        i = 0
        s.vars[name] = 0
        while R.less(i, R.val(I.evv(a[0].v[1], s)), False):
            r = I.ev(a[1], s)
            if s.in_return:
                return r
            i = s.vars[name] = R.op_add(s.vars[name], 1)
        del s.vars[name]
        return UNDEF
    fn("dotimes", 2, dotimes, True)
    fn("setq", 2, lambda a, s: I.g.vars["setf"].f(a, s), True)

    def defstruct(a, s):
        name, fields = a[0].name, [x.name for x in a[1:]]
        tag = "#" + name

        def make(b, t):
            b = (list(b) + [NIL] * len(fields))[:len(fields)]
            return Lst([Sym(tag)] + [R.val(x) for x in b])

        def test(b, t):
            x = R.val(b[0]) if b else NIL
            return isinstance(x, Lst) and len(x.v) > 0 and isinstance(x.v[0], Sym) and x.v[0].name == tag

        def get(i):
            return lambda b, t: nth(i, R.val(b[0]))
        def put(n, f):
            s.vars[n] = Fn(f, "(" + n + ")", name=n)
        put("make-" + name, make)
        put("is-%s-p" % name, test)
        for i, f in enumerate(fields):
            put("get-%s-%s" % (name, f), get(i + 1))
        return UNDEF
    fn("defstruct", 0, defstruct, True)


# ---------------------------------------------------------------- programs
# names, some of them used by the library itself for its own variables
V = ["a", "b", "i", "max", "l", "s", "result", "key", "_list", "data", "container", "argcount", "obj", "fcn", "d", "_result", "code"]
FLD = {"pt": ["x", "y"], "box": ["a", "l", "data"], "e": [], "i": ["i"], "name": ["name", "key"], "pt2": ["x", "y", "z"]}


class G:
    def __init__(self, rng):
        self.r = rng
        self.k = 0
        self.st = []
        self.counters = []

    def ch(self, *a):
        return self.r.choice(a)

    def sp(self):
        return self.ch(" ", " ", " ", " ", " ", "\n  ", " ; c\n ")

    def call(self, *a):
        o = "(" + a[0]
        for x in a[1:]:
            o += self.sp() + x
        return o + ")"

    def vals(self, d, loc):
        """any value"""
        k = self.r.randint(0, 12)
        if k < 3:
            return self.r.choice(V + list(loc) * 3)
        if k < 6:
            return self.num(d - 1, loc)
        if k < 8:
            return self.text(d - 1, loc)
        if k < 10:
            return self.lst(d - 1, loc)
        if k == 10 and self.st:
            return self.make(d - 1, loc)
        return self.ch("nil", "#t", "'sym", "'()", "2.5", "\"\"", "'(a b)", "(list)")

    def num(self, d, loc):
        k = self.r.randint(0, 9)
        if d <= 0 or k < 3:
            return self.ch(str(self.r.randint(-3, 9)), str(self.r.randint(0, 4)), *self.counters)
        if k == 3:
            return self.call(self.ch("length", "strlen", "len"), self.text(d - 1, loc))
        if k == 4:
            return self.call("length", self.lst(d - 1, loc))
        if k == 5:
            return self.call("find", self.ch(self.num(d - 1, loc), self.num(d - 1, loc), self.vals(d - 1, loc)), self.lst(d - 1, loc))
        if k == 6:
            return self.call("find", wl.lit(self.r.choice("abcxyz ")), self.text(d - 1, loc))
        if k == 7:
            return self.call("dict-len", self.dic(d - 1, loc))
        if k == 8:
            return self.call(self.ch("+", "*", "-"), self.num(d - 1, loc), self.num(d - 1, loc))
        return self.call("second", "(list%s%s%s%s)" % (self.sp(), self.num(d - 1, loc), self.sp(), self.num(d - 1, loc)))

    def text(self, d, loc):
        k = self.r.randint(0, 5)
        if d <= 0 or k < 3:
            return wl.lit(wl.text(self.r, chars="abcxyz "))
        if k == 3:
            return self.call("string", self.text(d - 1, loc), self.vals(d - 1, loc))
        if k == 4:
            return self.call("second", "(list%s1%s%s)" % (self.sp(), self.sp(), self.text(d - 1, loc)))
        return self.call("second", wl.lit(self.r.choice("abc") + wl.text(self.r, self.r.randint(1, 5), chars="abc")))

    def lst(self, d, loc):
        k = self.r.randint(0, 9)
        if d <= 0 or k < 3:
            return self.ch("'(1 2 3)", "'()", "'(\"a\" \"b\")", "'(5 4 3 2 1 0)", "'(a b 1)", "(list)", "'((1 2) (3 4))", "'(1 \"1\" 2.0 nil)")
        if k < 6:
            return self.call("list", *[self.vals(d - 1, loc) for _ in range(self.r.randint(1, 4))])
        if k == 6:
            return self.call("arg-list-expression", self.num(d - 1, loc))
        if k == 7:
            return self.call("arg-list-with-obj-expression", self.vals(d - 1, loc), self.num(d - 1, loc))
        if k == 8:
            return self.call("create-call-expression", self.ch("'call", "'f", "\"g\""), self.ch("\"meth\"", "'m"), self.ch("'obj", "\"Cls\"", "()", "nil", "'(a)", self.vals(d - 1, loc)), self.num(d - 1, loc))
        return self.call("create-native-method-expression", "\"L-\"", self.ch("\"Cls\"", "'Cls"), self.ch("\"nm\"", "\"b\""), self.ch("\"NM\"", "'Nm"), self.ch("#t", "#f"), self.num(d - 1, loc))

    def dic(self, d, loc):
        return "(do (def dd (make-dict)) %s (rval dd))" % " ".join("(dict-set dd %s %s)" % (self.ch("\"k\"", "1", "2", "\"b\""), self.num(d - 1, loc)) for _ in range(self.r.randint(0, 4)))

    def make(self, d, loc):
        n = self.r.choice(self.st)
        k = len(FLD[n])
        if self.r.random() < 0.1:
            k = self.r.randint(0, k + 1)
        return self.call("make-" + n, *[self.vals(d - 1, loc) for _ in range(k)])

    def struct(self, d, loc):
        n = self.r.choice(self.st)
        f = self.r.choice(FLD[n]) if FLD[n] else None
        k = self.r.randint(0, 3)
        x = self.ch("q_" + n, "q_" + n, self.make(d - 1, loc))
        if k == 0 or f is None:
            return self.call("is-%s-p" % n, self.ch(x, self.vals(d - 1, loc), "'()", "\"%s\"" % n, "'(#%s 1)" % n, "'#" + n, "(list '#%s)" % n))
        if k == 1:
            return self.call("list", *[self.call("get-%s-%s" % (n, f), x) for f in FLD[n]])
        return self.call("get-%s-%s" % (n, f), x)

    def expr(self, d, loc):
        k = self.r.randint(0, 11)
        if k < 5 and self.st:
            return self.struct(d, loc)
        if k < 8:
            return self.num(d, loc)
        if k == 8:
            return self.text(d, loc)
        if k == 9:
            return self.ch("(isCpp)", "(isNET)", "(isHaxe)")
        if k == 10:
            return self.lst(d, loc)
        return self.vals(d, loc)

    def stmt(self, d, loc, infn=False):
        k = self.r.randint(0, 15)
        v = self.r.choice(V + list(loc))
        if k < 2:
            self.k += 1
            return self.call("println", str(self.k), self.expr(3, loc), self.expr(2, loc), self.r.choice(V))
        if k == 2:
            return self.call("def", v, self.expr(2, loc))
        if k == 3:
            return self.call(self.ch("setq", "setq", "setf"), v, self.expr(2, loc))
        if k < 7 and d > 0:
            self.k += 1
            c = "c%d" % self.k if self.r.random() < 0.6 or infn else self.ch("n", "w", "k")
            if c in self.counters:
                c = "c%d" % self.k
            n = self.ch("3", "2", "0", "1", self.num(1, loc), "(len '(1 2 3))", "(- 4 %s)" % c)
            self.counters.append(c)
            b = self.body(d - 1, loc, infn)
            self.counters.pop()
            return self.call("dotimes", "(%s%s%s)" % (c, self.sp(), n), b)
        if k < 10 and d > 0:
            x = self.ch("x", "el", "i", "max", "__i", "container")
            old, self.counters = self.counters, []
            b = self.body(d - 1, loc + (x,), False)
            self.counters = old
            if x == "__i" and "defstruct" in b:
                x, b = "el", re.sub(r"\b__i\b", "el", b)     # defstruct uses the name itself
            return self.call("foreach", self.ch(self.lst(2, loc), self.lst(2, loc), self.text(1, loc), "'(1 2)"), self.call("lambda", "(" + x + ")", b))
        if k == 10 and not infn:
            n = self.r.choice(list(FLD))
            new = n not in self.st
            if new:
                self.st.append(n)
            t = self.call("defstruct", n, *FLD[n])
            return t + " (def q_%s %s)" % (n, self.make(1, loc)) if True else t
        if k == 11 and self.st:
            n = self.r.choice(self.st)
            if FLD[n]:
                return self.call("setf", self.call("nth", str(self.r.randint(1, len(FLD[n]))), "q_" + n), self.expr(1, loc))
        if k == 12 and d > 1 and not infn:
            ps = self.r.sample(V, self.r.randint(0, 2))
            old, self.counters = self.counters, []
            b = self.call("do", *[self.stmt(d - 1, tuple(ps), True) for _ in range(self.r.randint(1, 3))] + [self.call("return", self.expr(2, tuple(ps)))])
            self.counters = old
            f = self.ch("f1", "f2")
            return self.call("defn", f, "(" + " ".join(ps) + ")", b) + " " + self.call("println", self.call(f, *[self.vals(1, loc) for _ in ps]), self.r.choice(V))
        if k == 13 and infn and self.counters:
            return "(if (== %s 2) (return %s) (nop))" % (self.r.choice(self.counters), self.expr(1, loc))
        if k == 14 and d > 0:
            return "(if %s %s %s)" % (self.call("==", self.expr(1, loc), self.expr(1, loc)), self.stmt(d - 1, loc, infn), self.stmt(d - 1, loc, infn))
        if k == 15:
            return self.call("println", "(map (lambda (m) %s) %s)" % (self.call(*self.ch(("length", "m"), ("list", "m", "i"), ("find", "m", "'(1 2 3)"), ("second", "(list m m)"))), self.ch("'(\"a\" \"bb\")", "'(1 2)")))
        return self.call("println", self.expr(2, loc))

    def body(self, d, loc, infn):
        n = self.ch(1, 1, 2, 3)
        b = [self.stmt(d, loc, infn) for _ in range(n)]
        return "(do " + self.sp().join(b) + ")"


SETUP = [(v, t) for v, t in zip(V, ["1", "\"bb\"", "7", "3", "'(1 2 3)", "\"text\"", "5", "2", "'(9 8)", "'(#pt 4 5)", "'(1 (2))", "0", "nil", "first", "2.5", "#t", "\"code\""])]


def make(rng, i):
    g = G(rng)
    codes = [" ".join("(def %s %s)" % x for x in SETUP)]
    for _ in range(rng.randint(1, 4)):
        codes.append("\n".join(g.stmt(3, ()) for _ in range(rng.randint(1, 3))))
    return predicted(Case(["(import \"fuellib\")"] + codes), codes)


def predicted(c, codes):
    R._budget[0] = 400000
    I = R.Interp("", {}, 60000)
    install(I)
    try:
        c.ref = [{"k": "ok", "v": None, "o": ""}]
        for x in codes:
            r = I.eval(x)
            if r["k"] == "ok":
                r["v"] = None
            c.ref.append(r)
        c.steps = I.total + I.steps
    except R.Unsupported as e:
        c.err = "unsupported: " + str(e)
        c.codes = c.codes[:len(c.ref)]
        c.err = None if len(c.ref) > 2 else c.err
    except R.OutOfSteps:
        c.err = "too many steps"
    return c


def large(rng, i):
    """long loops, long collections, structures with many fields"""
    n, m = big.size(rng, 10, 300), big.size(rng, 5, 40)
    fs = ["f%d" % k for k in range(m)]
    xs = [str((k * 7) % 1000) if rng.random() < 0.8 else '"e%d"' % k for k in range(n)]
    at = big.picks(rng, n, 3)
    t = wl.text(rng, n * 5, "abcdef")
    codes = ["(def k 0) (dotimes (c %d) (setf k (+ k c))) (println k)" % n, "(def k 0) (foreach (list %s) (lambda (x) (do (setf k (+ k 1)) (print x \"\")))) (println k)" % " ".join(xs), "(println (list %s))" % " ".join("(find %s (list %s))" % (xs[p], " ".join(xs)) for p in at),
             "(println (length (list %s)) (strlen %s) (length %s) (find %s %s))" % (" ".join(xs), wl.lit(t), wl.lit(t), wl.lit(t[-1]), wl.lit("z" * n + t[-1])), "(def k 0) (foreach %s (lambda (x) (setf k (+ k 1)))) (println k)" % wl.lit(t),
             "(defstruct st %s) (def v (make-st %s)) (println (is-st-p v) %s)" % (" ".join(fs), " ".join(str(k) for k in range(m)), " ".join("(get-st-%s v)" % f for f in fs)), "(setf (nth %d v) 'new) (println v (get-st-%s v) (length v))" % (m, fs[-1]), "(println (arg-list-expression %d) (arg-list-with-obj-expression 'o %d))" % (n, m),
             "(dotimes (a %d) (dotimes (b %d) (if (== a b) (print a \"\") (nop))))" % (rng.randint(2, 12), rng.randint(2, 12)), "(defn w (n) (do (dotimes (c n) (if (== c %d) (return (list \"at\" c)) (nop))) (rval \"end\"))) (println (w %d))" % (rng.randint(1, 2 * n), n), "(def dd (make-dict)) (dotimes (c %d) (dict-set dd c c)) (println (dict-len dd) (length dd))" % n]
    rng.shuffle(codes)
    return predicted(Case(["(import \"fuellib\")"] + codes[:6]), codes[:6])


def go():
    c = Check("P36", rule="programs calling all functions and macros of the library on generated arguments, nested in each other, in loops over their results, inside of functions and lambdas, with variables and parameters named like the library's own ones, predicted by independent models of the documented functions; error iff the model says so; plain functions on all combinations of a pool of values; library taken from the working tree")
    lib = {"Library/fuellib.fuel": open(LIB, encoding="latin-1", newline="").read()}
    # functions on pools
    pool = ["'()", "'(1)", "'(1 2 3)", "'(3 2 1 2)", "\"\"", "\"a\"", "\"abcb\"", "(list \"a\" 'a 1 1.0)", "'((1) (2 3))", "'(nil #t #f)", "(make-dict)", "nil", "'(\"abc\" \"\")", "\"\u00e4\u00f6\"", "(list (list) (list 1))"]
    keys = ["1", "2", "3", "1.0", "\"a\"", "\"b\"", "\"\"", "'a", "nil", "#t", "#f", "'(1)", "'(2 3)", "'()", "\"1\"", "\"abc\"", "(list)"]
    exprs = ["(%s %s)" % (f, p) for f in ("length", "strlen", "dict-len", "second") for p in pool] + ["(find %s %s)" % (k, p) for k in keys for p in pool]
    exprs += ["(arg-list-expression %d)" % n for n in range(-1, 14)] + ["(arg-list-with-obj-expression %s %d)" % (o, n) for o in ("'o", "nil", "'(1 2)", "5") for n in range(0, 12)]
    exprs += ["(create-call-expression %s \"%s\" %s %d)" % (f, m, o, n) for f in ("'call", "'x") for m in ("m", "Name") for o in ("'obj", "()", "nil", "\"A.B\"", "'()", "'(a)") for n in (0, 1, 2, 11)]
    exprs += ["(create-native-method-expression %s %s \"%s\" \"%s\" %s %d)" % (p, q, m, m.upper(), st, n) for p in ("\"M-\"", "\"\"") for q in ("\"S.M\"", "'S") for m in ("abs", "x") for st in ("#t", "#f") for n in (0, 1, 3, 12)]
    cases = []
    for k in range(0, len(exprs), 20):
        x = Case(["(import \"fuellib\")"])
        x.ref = [{"k": "ok", "v": None, "o": ""}]
        x.steps = 2
        R._budget[0] = 400000
        I = R.Interp("", {}, 60000)
        install(I)
        for e in exprs[k:k + 20]:
            try:
                o = I.eval(e)
            except R.Unsupported as u:
                continue
            x.codes.append(e)
            x.ref.append(o)
        cases.append(x)
    cases += generate(make, c.n(1300, 30000), c.label("programs"), predict=False)
    cases += generate(large, c.n(120, 2000), c.label("big programs"), predict=False)
    cases = [x for x in cases if x.err is None]
    c.stat("programs", len(cases))
    res = c.run([x.req() for x in cases], files=lambda ids: lib)
    for x, r in zip(cases, res):
        if c.crash(r, x.show()):
            continue
        c.saw(tuple(x.codes), {"codes": x.codes, "observed": [chk.brief(y) for y in r.r]}, nontrivial=x.steps > 1)
        c.stat("steps predicted", x.steps)
        for j, (p, o) in enumerate(zip(x.ref, r.r)):
            c.stat("values" if p["k"] == "ok" else "errors")
            d = chk.same(p, o, value=p.get("v") is not None, where=False, msg=False)
            if d:
                c.violation("lib:" + chk.key_of(x), "evaluation %d: %s\n    %s" % (j + 1, d, "\n    ".join(x.codes[max(0, j - 3):j + 1])), dict(x.show(), predicted=x.ref, observed=r.r))
                break
    c.finish()


if __name__ == "__main__":
    main(go)
