import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
from chk import Check, Case, generate, main
import chk, wl, runner, big
import refinterp as R

SETUPS = [("", None), ("lp", None), ("", "fp"), ("lp", "fp"), ("./lp/", "./fp")]
PLACES = ["", "Library/", "lib/fuel/", "lp/", "fp/"]
V = ["v1", "v2", "v3", "g1"]
SETUP = None


def found(n, names):
    e = n.replace("\\\\", "/")
    x = e if e.endswith(".fuel") else e + ".fuel"
    return any(os.path.normpath(p) in names for p in (e, SETUP[0] + "/" + x, "Library/" + x, "lib/fuel/" + x, (SETUP[1] or "/none") + "/" + x))


class M:
    def __init__(self, rng, pre):
        self.rng, self.pre = rng, pre
        self.tag = 0
        self.names = set()

    def ch(self, *a):
        return self.rng.choice(a)

    def sp(self):
        return self.ch(" ", " ", " ", "\n ", "\n\n  ", " ; c\n ")

    def expr(self, f, d, loc=()):
        """expression which may call functions fK with K < f"""
        k = self.rng.randint(0, 9)
        v = lambda: self.rng.choice(V + list(loc) * 2)
        if d <= 0 or k < 3:
            return self.ch(v(), v(), str(self.rng.randint(0, 9)), "\"t%d\"" % self.rng.randint(0, 9))
        if k < 6 and f > 1:
            return "(f%d%s%s)" % (self.rng.randint(1, f - 1), self.sp(), self.expr(f, d - 1, loc))
        if k == 6:
            return "(list%s%s%s%s)" % (self.sp(), self.expr(f, d - 1, loc), self.sp(), self.expr(f, d - 1, loc))
        if k == 7:
            return "(string%s%s%s%s)" % (self.sp(), self.expr(f, d - 1, loc), self.sp(), self.expr(f, d - 1, loc))
        if k == 8:
            return "(%s%s%s%s%s)" % (self.ch("==", "==", "list", "+" if self.rng.random() < 0.3 else "string"), self.sp(), v(), self.sp(), v())
        return "(map%s(lambda (w)%s%s)%s(list 1 %s))" % (self.sp(), self.sp(), self.expr(f, d - 1, tuple(loc) + ("w",)), self.sp(), v())

    def name(self, i):
        """how module i may be named by an import"""
        n = self.pre + "m%d" % i
        for _ in range(self.ch(1, 20, 20, 20, 20, 20)):
            s = self.spell(n)
            if found(s, self.names):
                break
        return s

    def spell(self, n):
        return self.ch(n + ".fuel", n + ".fuel", n, n, "./" + n + ".fuel", n.replace("/", "\\\\"), "Library/" + n + ".fuel")

    def imp(self, lo, hi):
        ns = [self.rng.randint(lo, hi) for _ in range(self.ch(1, 1, 1, 2, 3))]
        a = " ".join(self.ch("\"%s\"" % self.name(n), "\"%s\"" % self.name(n)) for n in ns)
        if self.rng.random() < 0.04:
            a += " \"%snone\"" % self.pre
        return "(import%s%s)" % (self.sp(), a)

    def statement(self, lo, hi, inmod):
        k = self.rng.randint(0, 22)
        v = lambda: self.rng.choice(V)
        self.tag += 1
        if k < 4:
            return "(def %s%s%s)" % (v(), self.sp(), self.expr(4, 2))
        if k < 9:
            f = self.rng.randint(1, 3)
            loc = ("x",)
            b = self.rng.randint(0, 5)
            e = self.expr(f, 2, loc)
            if not e.startswith("("):
                e = "(rval %s)" % e
            if b == 0:
                e = "(do (setf %s %s)%s%s)" % (v(), self.expr(f, 1, loc), self.sp(), e)
            if b == 1:
                e = "(do (def loc %s)%s(list loc%s%s))" % (self.expr(f, 1, loc), self.sp(), self.sp(), e)
            if b == 2 and lo <= hi:
                e = "(do %s%s%s)" % (self.imp(lo, hi), self.sp(), e) if self.rng.random() < 0.3 else e
            if b == 3:
                e = "(do (gdef g%d %s)%s(rval %s))" % (self.rng.randint(1, 2), e, self.sp(), v())
            return "(defn f%d (%s)%s%s)" % (f, "x", self.sp(), e)
        if k == 9:
            return "(setf %s%s%s)" % (v(), self.sp(), self.expr(4, 1))
        if k < 13 and lo <= hi:
            return self.imp(lo, hi)
        if k == 13 and lo <= hi:
            return "(println%s%s)" % (self.sp(), self.imp(lo, hi))
        if k == 14:
            return "(define-macro-eval f%d (x)%s(list%s%s x))" % (self.ch(1, 2), self.sp(), self.sp(), v()) if self.rng.random() < 0.3 else "(println %s)" % v()
        if k == 15:
            return "(evalstr %s)" % wl.lit("(println %s)\n(list %s)" % (v(), self.expr(4, 1)))
        if k == 16:
            return "(delvar '%s)" % v() if self.rng.random() < 0.5 else "(delvar 'f%d)" % self.rng.randint(1, 3)
        if k == 17 and self.rng.random() < 0.2:
            return self.ch("(no-fn 1)", "(first%s7)" % self.sp(), "(f1%s1 2 3)" % self.sp(), "(setf nope 1)", "v1") if self.rng.random() < 0.5 else "(f3 1)"
        return "(println \"%d\"%s%s%s%s)" % (self.tag, self.sp(), self.expr(4, 2), self.sp(), self.ch(*V))

    def text(self, n, lo, hi, inmod):
        if inmod:
            r = self.rng.random()
            if r < 0.04:
                return ""
            if r < 0.07:
                return "; nothing here\n"
            if r < 0.09:
                return "(def v1 1)\n(println \"half\""
            if r < 0.11:
                return "(def v1 \"open)"
        t = ""
        if inmod and self.rng.random() < 0.8:
            fs = ["(defn f%d (x)%s%s)" % (f, self.sp(), self.expr(f, 1, ("x",))) for f in (1, 2, 3)] + ["(def %s%s%s)" % (v, self.sp(), self.ch("%d" % self.rng.randint(1, 99), "\"s%d\"" % self.rng.randint(1, 99), "(list 1)", "v1")) for v in ("v1", "v2", "v3")]
            self.rng.shuffle(fs)
            t = self.ch("\n", " ").join(fs[:self.ch(6, 6, 4)]) + "\n"
        t += "".join(self.statement(lo, hi, inmod) + self.ch("\n", "\n", " ", "\n\n", "\n; x\n") for _ in range(n))
        return t if t.strip().endswith(")") and self.rng.random() < 0.7 else t + self.ch("(list v1 g1)", "(rval v1)", "(f2 1)", "(string v2)")


def make(rng, i):
    pre = "c%d/" % i
    m = M(rng, pre)
    n = rng.randint(1, 4)
    files = {}
    plan = {k: rng.sample(PLACES, rng.choice([1, 1, 1, 2, 3])) for k in range(1, n + 1)}
    ext = ".fuel" if rng.random() < 0.96 else ""
    m.names = {place + pre + "m%d" % k + ext for k in plan for place in plan[k]}
    for k in range(1, n + 1):
        for place in plan[k]:
            body = m.text(rng.randint(1, 6), k + 1, n, True)
            files[place + pre + "m%d" % k + ext] = ("(println \"in %s m%d\")%s" % (place, k, rng.choice("\n "))) * (rng.random() < 0.6 and body != "") + body
    codes = []
    for j in range(rng.randint(1, 5)):
        t = m.text(rng.randint(1, 5), 1, n, False)
        if j == 0 and rng.random() < 0.8:
            t = "(gdef g1 5)" + rng.choice(["", "(defn f1 (x) (list \"main\" x v1))", "(defn f1 (x) (list \"main\" x v1)) (defn f2 (x) (list v2 (f1 x))) (defn f3 (x) (list x (f2 x)))"]) + rng.choice(["", "(def v1 1)(def v2 \"main\")", "(def v1 1)(def v2 2)(def v3 3)"]) + "\n" + t
        if j == 0 or rng.random() < 0.4:
            t = m.imp(1, n) + "\n" + t
        if j and rng.random() < 0.2:
            t = "(File-WriteAllText \"%s\" %s)\n%s\n%s" % (pre + "m1.fuel", wl.lit(m.text(rng.randint(1, 3), 9, n, True)), m.imp(1, 1), t)
        codes.append(t)
    files[pre + "keep"] = ""
    c = Case(codes, files=files, flags=rng.choice(["", "", "m"]), module=rng.choice(["main", "dir/main.fuel"]))
    try:
        c.ref, it = R.run_ref(c.codes, module=c.module, files=dict(files), flags=c.flags, libpath=SETUP[0], fuelpath=SETUP[1])
        c.steps = it.total + it.steps
        c.note = len(it.modules)
    except R.Unsupported as e:
        c.err = "unsupported: " + str(e)
    except R.OutOfSteps:
        c.err = "too many steps"
    return c


def go():
    global SETUP
    c = Check("P24", rule="generated sets of up to four modules (definitions of the same few names, functions reading and assigning module and global variables, nested and repeated imports, output, failing, empty and malformed modules) at up to three places of the search path each, imported by names in all spellings from sequences of evaluations which define, hide, assign, delete and call, under five configurations of library path and FUELPATH; compared with the reference: values, output, errors with module, line and message")
    c.assumptions = ["no import cycles (they recurse without end)"]
    for s in SETUPS:
        SETUP = s
        n = c.n(600, 6000)
        cases = generate(make, n, c.label("modules-%s-%s" % s), predict=False)
        env = {"DRV_LIB": s[0]}
        if s[1]:
            env["FUELPATH"] = s[1]
        todo = [x for x in cases if not x.err]
        for x in cases:
            if x.err:
                c.skipped[x.err] = c.skipped.get(x.err, 0) + 1
        if len(todo) < len(cases) * 0.7:
            raise runner.HarnessError("most generated cases are outside of the model: %s" % sorted(c.skipped.items(), key=lambda x: -x[1])[:5])
        res = c.run([x.req() for x in todo], files=chk.files_of(todo), env=env)
        for x, r in zip(todo, res):
            if c.crash(r, dict(x.show(), setup=s)):
                continue
            c.saw((x.codes, s), {"codes": x.codes, "observed": [chk.brief(y) for y in r.r]}, nontrivial=x.note > 0)
            c.stat("modules in use", x.note)
            for j, (p, o) in enumerate(zip(x.ref, r.r)):
                c.stat("values" if p["k"] == "ok" else "errors")
                c.stat("missing modules reported", p["o"].count("WARNING: Library"))
                if "m" in x.flags:
                    o["o"] = re.sub(r"EXCEPTION: [^\n]*\n", "", o["o"])
                d = chk.same(p, o)
                if d:
                    c.violation("diff:" + chk.key_of(x), "evaluation %d, library path %r, FUELPATH %r: %s\n    %s\n  files:\n    %s" % (j + 1, s[0], s[1], d, "\n    ".join(x.codes[:j + 1]), "\n    ".join("%s: %r" % kv for kv in sorted(x.files.items()))), {"case": x.show(), "setup": s, "predicted": x.ref, "observed": r.r})
                    break
    c.compare(generate(big.modules, c.n(120), c.label("big modules")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
