"""Random programs of the language (typed, so that most of them run far; faults are injected on purpose)."""
import random

INTS = [0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 100, 255, 1000, 65536, 2147483647, -1, -2, -7, -100, -2147483648, -2147483647, 46341, 1073741824]
DBLS = ["0.0", "1.0", "2.5", "-0.5", "3.75", "1e3", "-2.25", "0.125", "100.0", "1e10", "0.001", "-7.0", "0.1"]
STRS = ["", "a", "b", "abc", "hello world", "A", "Zz", "12", "-3", "2.5", "x y", "(a)", "tab\\there", "line\\nfeed", "q\\\"q", "bs\\\\s", "; no comment", "'quoted", "  pad  ", "aaa", "abab", "#t", "nil", "{0}"]


class G:
    def __init__(self, rng, faults=0.0, depth=3, multiline=True, prefix=""):
        self.r = rng
        self.faults = faults
        self.maxd = depth
        self.ml = multiline
        self.n = 0
        self.prefix = prefix
        self.vars = [{}]          # frames: name -> type
        self.fns = {}             # name -> (argument types, result type)
        self.in_fn = 0
        self.nofn = False

    # ---------------------------------------------------------------- helpers
    def ch(self, *xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def name(self, k="v"):
        self.n += 1
        return "%s%s%d" % (self.prefix, k, self.n)

    def sp(self):
        if self.ml and self.p(0.06):
            return self.ch("\n", "\n ", "  ", "\n\n", "\t", " ; note\n")
        return " "

    def call(self, *parts):
        out = "(" + str(parts[0])
        for x in parts[1:]:
            out += self.sp() + str(x)
        return out + ")"

    def visible(self, t):
        seen = {}
        for fr in self.vars:
            seen.update(fr)
        if t == "any":
            return list(seen)
        return [n for n, ty in seen.items() if ty == t or (t == "num" and ty in ("int", "dbl")) or (t == "list" and ty == "ilist")]

    # ---------------------------------------------------------------- literals
    def int_lit(self):
        return str(self.r.choice(INTS) if self.p(0.4) else self.r.randint(-20, 20))

    def small(self, lo=0, hi=4):
        return str(self.r.randint(lo, hi))

    def str_lit(self):
        return '"' + self.r.choice(STRS) + '"'

    def lit(self, t):
        if t == "any":
            t = self.ch("int", "dbl", "str", "bool", "list", "nil")
        if t == "num":
            t = self.ch("int", "dbl")
        if t == "int":
            return self.int_lit()
        if t == "dbl":
            return self.r.choice(DBLS)
        if t == "str":
            return self.str_lit()
        if t == "bool":
            return self.ch("#t", "#f", "true", "false")
        if t == "nil":
            return self.ch("nil", "NIL")
        if t == "ilist":
            return self.ch("'", "") + self.seq([self.int_lit() for _ in range(self.r.randint(0, 4))])
        if t == "list":
            return "'(" + " ".join(self.datum(2) for _ in range(self.r.randint(0, 4))) + ")"
        if t == "dict":
            return "(make-dict)"
        if t == "fn1":
            return self.lam(["int"], "int", 1)
        raise KeyError(t)

    def datum(self, d):
        k = self.r.random()
        if d > 0 and k < 0.2:
            return "(" + " ".join(self.datum(d - 1) for _ in range(self.r.randint(0, 3))) + ")"
        if k < 0.45:
            return self.int_lit()
        if k < 0.6:
            return self.str_lit()
        if k < 0.7:
            return self.r.choice(DBLS)
        if k < 0.8:
            return self.ch("#t", "#f", "nil")
        return self.ch("a", "b", "sym", "x-y")

    def seq(self, xs):
        return "(" + " ".join(xs) + ")" if xs else "()"

    # ---------------------------------------------------------------- expressions
    def fault(self):
        return self.ch("(no-such-function 1)", "(/ 1 0)", "(first '())", "(nth 9 (list 1 2))", "(+ 1 nil)", "(not 5)", "(if 3 1 2)", "(len 5)", "(map 1 (list 1))",
                       "(setf no_such_var 1)", "(< #t #f)", "(dict-get 5 1)", "(apply + 5)", "(arg 99)", "(def 5 1)", "(reverse 7)", "(slice \"abc\" 9 1)", "(nth \"a\" '(1))",
                       "(- \"a\" \"b\")", "(reduce + 5 1)", "(~ 1.5)", "(sleep)", "(return)", "(trace)", "(5 1 2)", "(\"str\" 1)", "(rest 5)", "(push 1 5)", "(evalstr \"(\")", "(int (float \"1e30\"))",
                       "(and 1 2)", "(while nil (nop))", "(search 1 2)", "(last \"\")", "(mod 5 0)", "(>> 1.0 2)", "(dict-set nil 1 2)", "(evalstr \"(no-fn)\")", "(do 5)", "(fn (x))")

    def expr(self, t, d=None):
        d = self.maxd if d is None else d
        if self.faults and self.p(self.faults):
            return self.fault()
        if t == "num":
            t = self.ch("int", "int", "dbl")
        if t == "any":
            t = self.ch("int", "dbl", "str", "bool", "list", "ilist", "int", "str")
        vs = self.visible(t)
        if d <= 0 or self.p(0.2):
            if vs and self.p(0.7):
                return self.r.choice(vs)
            if t in ("list", "ilist") and self.p(0.5):
                return self.call("list", *[self.lit("int" if t == "ilist" else "any") for _ in range(self.r.randint(0, 3))])
            x = self.lit(t)
            if t == "ilist" and not x.startswith("'"):
                x = "'" + x if x != "()" else "'()"
            return x
        if vs and self.p(0.15):
            return self.r.choice(vs)
        fs = [(n, a) for n, (a, r) in self.fns.items() if r == t]
        if fs and not self.nofn and self.p(0.25):
            n, a = self.r.choice(fs)
            return self.call(n, *[self.expr(x, d - 1) for x in a])
        if self.p(0.12):
            return self.call("if", self.expr("bool", d - 1), self.expr(t, d - 1), self.expr(t, d - 1))
        if self.p(0.05):
            return self.call("do", *([self.stmt(d - 1) for _ in range(self.r.randint(0, 2))] + [self.call("rval", self.expr(t, d - 2))]))
        if self.p(0.06) and t != "dict":
            return self.call(self.lam_call(t, d))
        return getattr(self, "x_" + t)(d)

    def lam(self, types, ret, d):
        names = [self.name("p") for _ in types]
        self.vars.append(dict(zip(names, types)))
        self.in_fn += 1
        body = self.expr(ret, d)
        self.in_fn -= 1
        self.vars.pop()
        return "(" + self.ch("lambda", "fn") + " (" + " ".join(names) + ")" + self.sp() + body + ")"

    def lam_call(self, t, d):
        k = self.r.randint(0, 2)
        ts = [self.ch("int", "str", "bool", "ilist") for _ in range(k)]
        return "apply" + self.sp() + self.lam(ts, t, d - 1) + self.sp() + self.call("list", *[self.expr(x, d - 1) for x in ts])

    def x_int(self, d):
        e = lambda t: self.expr(t, d - 1)
        k = self.r.randint(0, 17)
        if k <= 3:
            return self.call(self.ch("+", "add"), *[e("int") for _ in range(self.r.randint(2, 4))])
        if k <= 5:
            return self.call(self.ch("-", "sub"), *[e("int") for _ in range(self.r.randint(1, 3))])
        if k <= 7:
            return self.call(self.ch("*", "mul"), *[e("int") for _ in range(2)])
        if k == 8:
            return self.call(self.ch("/", "div", "%", "mod"), e("int"), self.ch("2", "3", "-1", "7", "10", "-4"))
        if k == 9:
            return self.call(self.ch("<<", ">>", "&", "|", "^"), e("int"), e("int"))
        if k == 10:
            return self.call("~", e("int"))
        if k == 11:
            return self.call("len", e(self.ch("list", "str", "ilist")))
        if k == 12:
            return self.call("reduce", self.ch("+", "*", "-", self.lam(["int", "int"], "int", d - 2)), e("ilist"), e("int"))
        if k == 13:
            return self.call("int", e(self.ch("bool", "int")))
        if k == 14:
            return self.call("search", e("str"), e("str"))
        if k == 15:
            return self.call("type", e("any"))
        if k == 16:
            v = self.name("p")
            self.vars.append({v: "int"})
            r = self.call("do", self.call("def", v, e("int")), self.call("+", v, e("int")))
            self.vars.pop()
            return r
        return self.call("nth", "0", self.call("cons", e("int"), e("ilist")))

    def x_dbl(self, d):
        e = lambda t: self.expr(t, d - 1)
        k = self.r.randint(0, 6)
        if k <= 2:
            return self.call(self.ch("+", "-", "*"), e("dbl"), e(self.ch("dbl", "int")))
        if k == 3:
            return self.call("/", e("dbl"), self.ch("2", "4.0", "-8", "0.5"))
        if k == 4:
            return self.call("float", e("int"))
        if k == 5:
            return self.call(self.ch("Math-Abs", "Math-Floor", "Math-Ceiling", "Math-Truncate"), e("num"))
        return self.call("-", e("dbl"))

    def x_str(self, d):
        e = lambda t: self.expr(t, d - 1)
        k = self.r.randint(0, 12)
        if k <= 2:
            return self.call(self.ch("string", "+"), e("str"), *[e(self.ch("str", "int", "dbl", "ilist")) for _ in range(self.r.randint(1, 3))])
        if k == 3:
            return self.call(self.ch("upper-case", "lower-case", "trim", "reverse"), e("str"))
        if k == 4:
            return self.call("slice", self.call("string", e("str"), '"abcdef"'), self.small(), self.ch("0", "1", "2", "3", "-1", "99"))
        if k == 5:
            return self.call("replace", e("str"), e("str"), e("str"))
        if k == 6:
            return self.call("str", e("any"))
        if k == 7:
            return self.call("typestr", e("any"))
        if k == 8:
            return self.call("first", e("str"))
        if k == 9:
            return self.call("rest", self.call("string", '"x"', e("str")))
        if k == 10:
            return self.call("format", self.ch('"{0}"', '"<{0}|{1}>"', '"{1}{0}"', '"{0,6}|{1,-4}"', '"x"'), e("any"), e("any"))
        if k == 11:
            return self.call("nth", "0", self.call("list", e("str"), e("any")))
        return self.call("print", e("any")) if self.p(0.3) else self.call("string", e("str"), e("str"))

    def x_bool(self, d):
        e = lambda t: self.expr(t, d - 1)
        k = self.r.randint(0, 8)
        if k <= 2:
            t = self.ch("num", "num", "str")
            return self.call(self.ch("<", ">", "<=", ">="), e(t), e(t))
        if k == 3:
            t = self.ch("num", "str", "bool", "list", "ilist")
            return self.call(self.ch("==", "=", "equal", "!="), e(t), e(t))
        if k == 4:
            return self.call(self.ch("and", "&&"), *[e("bool") for _ in range(self.r.randint(0, 3))])
        if k == 5:
            return self.call(self.ch("or", "||"), *[e("bool") for _ in range(self.r.randint(0, 3))])
        if k == 6:
            return self.call(self.ch("not", "!"), e("bool"))
        if k == 7:
            return self.call("==", self.call("len", e("list")), e("int"))
        vs = self.visible("dict")
        if vs:
            return self.call("dict-contains-key", self.r.choice(vs), e(self.ch("int", "str")))
        return self.lit("bool")

    def x_list(self, d):
        e = lambda t: self.expr(t, d - 1)
        k = self.r.randint(0, 10)
        if k <= 2:
            return self.call("list", *[e("any") for _ in range(self.r.randint(0, 4))])
        if k == 3:
            return self.call("cons", e("any"), e("list"))
        if k == 4:
            return self.call("append", *[e("list") for _ in range(self.r.randint(0, 3))])
        if k == 5:
            return self.call("reverse", e("list"))
        if k == 6:
            return self.call(self.ch("rest", "cdr"), self.call("cons", e("any"), e("list")))
        if k == 7:
            return self.call("map", self.lam([self.ch("any")], "any", d - 2), e("list"))
        if k == 8:
            return "`(" + " ".join([self.ch(self.datum(1), "," + self.simple(e("any")), ",@" + self.simple(e("ilist"))) for _ in range(self.r.randint(3, 5))]) + ")"
        if k == 9:
            vs = self.visible("dict")
            if vs:
                return self.call("dict-keys", self.r.choice(vs))
            return self.call("list", e("any"))
        return self.call("list", e("list"), e("ilist"))

    def simple(self, x):
        return x if x[0] not in "'`\"" or x[0] == '"' else "(rval " + x + ")"

    def x_ilist(self, d):
        e = lambda t: self.expr(t, d - 1)
        k = self.r.randint(0, 7)
        if k <= 1:
            return self.call("list", *[e("int") for _ in range(self.r.randint(0, 4))])
        if k == 2:
            return self.call("map", self.lam(["int"], "int", d - 2), e("ilist"))
        if k == 3:
            return self.call("append", e("ilist"), e("ilist"))
        if k == 4:
            return self.call("reverse", e("ilist"))
        if k == 5:
            return self.call("cons", e("int"), e("ilist"))
        if k == 6:
            fs = [v for v in self.visible("fn1")]
            return self.call("map", self.r.choice(fs) if fs else self.lam(["int"], "int", 1), e("ilist"))
        return self.call("rest", self.call("cons", e("int"), e("ilist")))

    def x_dict(self, d):
        return self.call("make-dict")

    def x_fn1(self, d):
        return self.lam(["int"], "int", d - 1)

    # ---------------------------------------------------------------- statements
    def stmt(self, d=None):
        d = self.maxd if d is None else d
        if d <= 0:
            return self.call("nop")
        if self.faults and self.p(self.faults):
            return self.fault()
        k = self.r.randint(0, 17)
        if k <= 2:
            t = self.ch("int", "int", "str", "bool", "ilist", "list", "dbl", "dict", "fn1")
            x = self.expr(t, d - 1)
            n = self.name()
            self.vars[-1][n] = t
            return self.call("def", n, x)
        if k <= 4:
            t = self.ch("int", "str", "bool", "ilist", "dbl")
            vs = self.visible(t)
            if vs:
                return self.call("setf", self.r.choice(vs), self.expr(t, d - 1))
        if k <= 7:
            return self.call(self.ch("println", "println", "print"), *[self.expr("any", d - 1) for _ in range(self.r.randint(1, 3))])
        if k == 8:
            return self.call("if", self.expr("bool", d - 1), self.block(d - 1), *([self.block(d - 1)] if self.p(0.6) else []))
        if k == 9:
            return self.loop(d)
        if k == 10:
            vs = self.visible("ilist")
            if vs:
                v = self.r.choice(vs)
                return self.ch(self.call("push", self.expr("int", d - 1), v), self.call("pop", v), self.call("push", self.expr("int", d - 1), v, self.small()), self.call("pop", v, self.small()))
        if k == 11:
            vs = self.visible("ilist")
            if vs:
                v = self.r.choice(vs)
                return self.call("if", self.call(">", self.call("len", v), "0"), self.call("setf", self.call(self.ch("first", "last", "car"), v) if self.p(0.6) else self.call("nth", "0", v), self.expr("int", d - 1)))
        if k == 12:
            vs = self.visible("dict")
            if vs:
                v = self.r.choice(vs)
                key = self.expr(self.ch("int", "str"), 1)
                return self.ch(self.call("dict-set", v, key, self.expr("any", d - 1)), self.call("dict-remove", v, key), self.call("println", self.call("dict-get", v, key)))
        if k in (13, 14) and not self.in_fn:
            return self.defn(d)
        if k == 15 and self.in_fn:
            return self.call("if", self.expr("bool", d - 1), self.call("return", self.expr("any", d - 1)))
        return self.call("println", self.expr("any", d - 1))

    def block(self, d):
        self.vars.append({})
        r = self.call(self.ch("do", "do", "begin"), *[self.stmt(d) for _ in range(self.r.randint(1, 3))])
        self.vars.pop()
        return r

    def loop(self, d):
        i = self.name("i")
        self.vars[-1][i] = "int"
        body = [self.stmt(d - 1) for _ in range(self.r.randint(1, 2))]
        body = [b for b in body if "(setf " + i + " " not in b and "(setf\n" + i not in b]
        limit = self.r.randint(0, 4)
        j = self.name("k")
        return self.call("do", self.call("def", j, "0"), self.call("while", self.call("<", j, limit), self.call("do", self.call("setf", j, self.call("+", j, 1)), self.call("def", i, j), *body)))

    def defn(self, d):
        n = self.name("f")
        k = self.r.randint(0, 3)
        ts = [self.ch("int", "str", "ilist", "bool") for _ in range(k)]
        ret = self.ch("int", "str", "bool", "ilist")
        names = [self.name("a") for _ in ts]
        self.vars.append(dict(zip(names, ts)))
        self.in_fn += 1
        body = [self.stmt(d - 1) for _ in range(self.r.randint(0, 3))]
        # the last expression gives the value
        body.append(self.call("rval", self.expr(ret, d - 1)))
        self.in_fn -= 1
        self.vars.pop()
        self.fns[n] = (ts, ret)
        return self.call(self.ch("defn", "defn", "gdefn"), n, "(" + " ".join(names) + ")", self.call("do", *body))

    def program(self, n=None):
        n = n or self.r.randint(3, 8)
        out = []
        for _ in range(n):
            out.append(self.stmt())
        if self.p(0.8):
            out.append(self.call("list", *([v for v in self.visible("int")[:3]] + [self.expr("any", 2)])))
        return ("\n" if self.ml else " ").join(out)
