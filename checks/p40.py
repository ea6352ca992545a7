import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, runner
import refinterp as R
import p23, p29

PROMPT = p23.PROMPT
ANY = "\x01"          # text of a message the model does not predict
HEADER = "\nFUEL(isp) v0.99.6 (for C++) from 16.12.2023, (C) by Michael Neuroth\n\nType \"help\" for informations.\n\n"


class Stop(BaseException):
    pass


def dumpvars(s, out, functions=True):
    for k in sorted(s.vars, key=lambda x: x.encode("latin-1")):
        v = s.vars[k]
        if isinstance(v, R.Fn) and v.builtin or isinstance(v, R.LVal):
            continue
        t = '"' + v + '"' if R.isstr(v) else R.tostr(v)
        out.append("%s --> %s : %s \n" % (k.rjust(20), t.ljust(40), R.TYPENAMES[R.typeid(v)]))


def dumpfns(s, out, builtins=False):
    """commands funcs and builtins"""
    for k in sorted(s.vars, key=lambda x: x.encode("latin-1")):
        f = s.vars[k]
        if not isinstance(f, R.Fn) or builtins and not f.builtin:
            continue
        mod = f.module if not f.builtin else "<builtin>"
        if mod is None:
            raise R.Unsupported("function of unknown module")
        if mod.startswith("<evalstr>:"):
            mod = mod[len("<evalstr>:"):].split(":")[0]
        out.append("%s --> %s : Function %s\n" % (k.rjust(20), ("function " + p29.CAT[f.name][0] if f.builtin else R.tostr(f)).ljust(40), "" if builtins else " : module=" + mod))


INFO = {}


class Session:
    """the debugger as documented on top of the reference interpreter"""

    def __init__(self, cmds, files):
        self.inp, self.pos, self.files = cmds, 0, files
        self.out = []
        self.bps = set()
        self.stats = {"stops": 0, "expressions": 0, "errors at the prompt": 0, "failing calls": 0, "expressions in functions": 0}
        self.steps = 0

    def interp(self):
        I = R.Interp(self.inp, dict(self.files), 30000)
        I.inpos = self.pos

        def brk(a, s):
            I.out.append("break -> call stack:\n")
            self.stack(I, s, s)
            if I.hook is not None:
                self.prompt(I, s)
            else:
                I.out.append("Warning: can not break, because no debugger support availabe!\n")
            return R.UNDEF
        I.g.vars["break"] = R.Fn(brk, "(break)", name="break", builtin=True)
        return I

    # ------------------------------------------------------------ frames
    def frames(self, s):
        r = []
        while s is not None:
            r.append(s)
            s = s.prev
        return r[::-1]

    def stack(self, I, top, cur):
        for i, s in enumerate(self.frames(top)):
            I.out.append("%s%5d name=%-35s lineno=%-4d module=%s\n" % ("-->" if s is cur else "   ", i + 1, s.name, -1 if s.line is None else s.line, s.module))
        I.out.append("\n")

    # ------------------------------------------------------------ prompt
    def read(self, I):
        return I.readline()

    def evaluate(self, I, s, cmd):
        old = (I.hook, I.onerror, I.tracing, s.line, s.tok, s.in_return, s.module)
        I.hook = I.onerror = None
        I.tracing = False
        self.stats["expressions"] += 1
        if old[0] is not None and s is not I.g:
            self.stats["expressions in functions"] += 1
        try:
            r = I.eval_code(cmd, s, s.module)
            I.out.append("result=%s\n" % (R.tostr(r) if r is not None else "NIL"))
        except R.FuelError as e:
            self.stats["errors at the prompt"] += 1
            I.out.append("Exception: %s\n" % (ANY if e.msg is None else e.msg))
        finally:
            I.hook, I.onerror, I.tracing, s.line, s.tok, s.in_return, s.module = old

    def prompt(self, I, top, frommain=False):
        self.stats["stops"] += 1
        fr = self.frames(top)
        cur = len(fr)
        w = I.out.append
        while True:
            w(PROMPT)
            c = self.read(I).strip()
            if c in ("", "exit", "quit", "q"):
                if not frommain:
                    raise Stop()
                return
            if c in ("s", "step"):
                self.go = lambda d: True
            elif c in ("v", "over"):
                self.go = lambda d, n=cur: d <= n
            elif c in ("o", "out"):
                self.go = lambda d, n=cur: d <= n - 1
            elif c in ("r", "run"):
                self.go = None
            if c in ("s", "step", "v", "over", "o", "out", "r", "run"):
                return
            if c in ("k", "stack"):
                self.stack(I, top, fr[cur - 1])
            elif c in ("u", "up"):
                cur = min(len(fr), cur + 1)
            elif c in ("d", "down"):
                cur = max(1, cur - 1)
            elif c in ("l", "locals"):
                dumpvars(fr[cur - 1], I.out)
            elif c in ("g", "globals"):
                dumpvars(I.g, I.out)
            elif c == "modules":
                for n in sorted(I.modules):
                    w(n + "\n")
            elif c == "macros":
                for n in sorted(I.macros):
                    w(n + "\n")
            elif c.startswith("doc ") or c.startswith("searchdoc "):
                fn, n = c.split(" ")[:2]
                if re.search("[()\"\\\\ ']", n):
                    w("Exception: %s\n" % ANY)
                    continue
                text = ""
                for tab in [fr[cur - 1].vars] + [I.modules[m].vars for m in sorted(I.modules)]:
                    for k in sorted(tab, key=lambda x: x.encode("latin-1")):
                        f = tab[k]
                        if isinstance(f, R.Fn) and (k.startswith(n) if fn == "doc" else n in k):
                            text += p29.block(*(p29.CAT[f.name] if f.builtin else (f.sig, f.doc, False))) if f.sig else p29.LINE + "\n\n" + ANY + "\n\nSyntax: \n\n>not available<\n\n\n"
                w(text + "\n\n")
            elif c == "funcs":
                for s in [I.g] + [I.modules[m] for m in sorted(I.modules)]:
                    dumpfns(s, I.out)
            elif c == "builtins":
                dumpfns(I.g, I.out, True)
            elif c in ("doc", "searchdoc"):
                for k in sorted(I.g.vars, key=lambda x: x.encode("latin-1")):
                    f = I.g.vars[k]
                    if isinstance(f, R.Fn) and f.builtin:
                        sig, doc = p29.CAT[f.name][:2]
                        w("%s --> %s\n" % (k.rjust(20), sig) + (" " * 25 + doc + "\n" if doc else ""))
            elif c in ("h", "help", "about"):
                w(INFO[c[0]])
            elif c.startswith("b "):
                self.bps.add((int(c[2:]), fr[cur - 1].module))
            else:
                self.evaluate(I, fr[cur - 1], c)

    # ------------------------------------------------------------ program
    def hook(self, I, scope, lst):
        n = 0
        s = scope
        while s is not None:
            n += 1
            s = s.prev
        if (self.go is None or not self.go(n)) and (getattr(lst[0], "line", None), scope.module) not in self.bps:
            return
        self.go = None
        I.out.append("--> %s line=%d module=%s token=%s\n" % (head(lst), scope.line or 0, scope.module, scope.tok))
        self.prompt(I, scope)

    def onerror(self, I, e, scope, body):
        self.stats["failing calls"] += 1
        I.out.append("EXCEPTION: %s\n" % (ANY if e.msg is None else e.msg))
        I.out.append("--> %s line=%d module=%s token=%s\n" % (head(body.v), scope.line or 0, scope.module, scope.tok))
        self.prompt(I, scope)

    def run(self, script, module):
        while True:
            self.go = lambda d: True
            I = self.interp()
            I.hook = lambda s, l: self.hook(I, s, l)
            I.onerror = lambda e, s, b: self.onerror(I, e, s, b)
            end = False
            try:
                I.eval_code(script, I.g, module)
            except Stop:
                end = True
            except R.FuelError as e:
                end = True
                I.out.append("\nException: EXCEPTION: %s\n\nStack:\n<TODO>\n" % (ANY if e.msg is None else e.msg))
                I.hook = I.onerror = None if e.msg == "" else I.onerror
                self.prompt(I, I.g, True)
            self.pos = I.inpos
            self.steps += I.steps
            self.out += I.out
            if end:
                return "".join(self.out)
            self.out.append("restart program\n")

    def interactive(self):
        """the prompt without program (-i)"""
        I = self.interp()
        self.prompt(I, I.g, True)
        self.steps += I.steps
        return HEADER + "".join(I.out)


def head(v):
    return R.tostr(v[0]) if v else "?"


# ---------------------------------------------------------------- programs and dialogues
def expr(rng, fns, d, v):
    k = rng.randint(0, 18)
    e = lambda: expr(rng, fns, d - 1, v)
    s = lambda: rng.choice([" ", " ", "\n ", "\n\n  ", " ; c\n "])
    if k == 14:
        return "(do%s(println %s)%s%s)" % (s(), rng.choice(v), s(), e() if d > 0 else "(+ 1 1)")
    if k > 15 and fns:
        f, n = rng.choice(fns)
        return "(" + f + "".join(s() + rng.choice(v + ["1", "7", e() if d > 0 else "(+ 1 j)"]) for _ in range(n)) + ")"
    if k > 14:
        return rng.choice(["(do%s(setf %s (+ %s 1))%s(list %s))" % (s(), v[0], v[0], s(), v[0]), "(do%s(def loc %s)%s(list%sloc))" % (s(), rng.choice(v), s(), s()), "(do (break)%s(+ 1 2))" % s(), "(first%s5)" % s(), "(no-fn%s1)" % s(), "(println (readline))"][: 6 if rng.random() < 0.5 else 3])
    return p23.expr(rng, fns, d, v)


def program(rng):
    s = lambda: rng.choice(["\n", "\n", "\n\n", " "])
    if rng.random() < 0.06:
        return rng.choice(["", "; nothing", "(+ 1", "5", "(def x \"open)"])
    out = ["(define-macro-eval mac (a) (list a i))"] if rng.random() < 0.2 else []
    out += ["(def i %d)" % rng.randint(0, 3), "(def j 2)", "(def l '(1 2 3))"]
    fns = []
    if rng.random() < 0.3:
        out.append("(import \"m1.fuel\")")
        fns += [("ff", 1), ("gg", 2)]
    if rng.random() < 0.15:
        out.append("(import \"m2.fuel\")")
        fns += [("hh", 1)]
    for n in range(rng.randint(1, 3)):
        a = rng.choice([["x"], ["x", "y"], ["i"], []])
        b = expr(rng, fns, rng.randint(1, 2), a + ["j"])
        if rng.random() < 0.12:
            b = rng.choice(["(do (println j)%s(no-fn %s))" % (s(), b), "(list %s%s(first 5))" % (b, s()), "(if (> j 1)%s(nth 9 l)%s%s)" % (s(), s(), b)])
        out.append("(defn f%d (%s)%s%s)" % (n, " ".join(a), s(), b))
        fns.append(("f%d" % n, len(a)))
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(0, 4)
        if k == 0:
            out.append("(setf i 0) (while (< i %d)%s(do%s(setf i (+ i 1))%s%s))" % (rng.randint(1, 3), s(), s(), s(), expr(rng, fns, 1, ["i", "j"])))
        elif k == 1:
            out.append("(setf i%s%s)" % (s(), expr(rng, fns, 1, ["i", "j"])))
        elif k == 2:
            out.append("(println%s%s%si j)" % (s(), expr(rng, fns, 1, ["i", "j"]), s()))
        else:
            out.append(expr(rng, fns, 2, ["i", "j"]))
    return s().join(out) + "\n(println i j l)"


NAMES = ["i", "j", "x", "y", "l", "loc", "q", "w", "n1", "n2"]


def typed(rng):
    """an expression typed at the prompt"""
    k = rng.randint(0, 30)
    v, u = rng.choice(NAMES), rng.choice(NAMES)
    n = str(rng.randint(-5, 9))
    if k < 5:
        return rng.choice(["(println %s %s)" % (v, u), "(list %s %s)" % (v, u), "(rval %s)" % v])
    if k < 9:
        return rng.choice(["(setf %s %s)" % (v, n), "(setf %s (+ %s 1))" % (v, u), "(def %s %s)" % (v, n), "(gdef %s '(7 8))" % v, "(setf %s %s)" % (v, u)])
    if k == 9:
        return "(defn %s (x) (list x %s))" % (rng.choice(["f0", "f1", "h1", "gg"]), v)
    if k < 13:
        return "(%s%s)" % (rng.choice(["f0", "f1", "f2", "h1", "ff", "gg"]), "".join(" " + rng.choice([v, u, n]) for _ in range(rng.randint(0, 2))))
    if k == 13:
        return "(setf (first l) %s)" % n
    if k == 14:
        return rng.choice(["(push %s l)" % n, "(pop l)", "(append l '(%s))" % n, "(setf l (append l (list %s)))" % v])
    if k == 15:
        return "(map (lambda (w) (+ w %s)) l)" % rng.choice([n, v])
    if k == 16:
        return rng.choice(["(+ 1", "(+ 1))", ")", "\"open", "(println \"a)", "'", "(list '(1 2)", "(\\)"])
    if k == 17:
        return rng.choice([n, rng.choice(["i", "j", "x", "q", "n1"]), "\"text\"", "2.5", "nil", "#t", "; comment", ";", "'a", "'(1 2)"])
    if k == 18:
        return rng.choice(["(no-fn)", "(first 5)", "(+ 1 nil)", "(setf nope 1)", "(nth 9 l)", "(f0 (no-fn))", "(int \"x\")", "(list (first 5) (println 1))", "(do (println 1) (no-fn) (println 2))"])
    if k == 19:
        return "(println \"%s\") (println %s)" % (rng.choice(["a", "b"]), v)
    if k == 20:
        return "(evalstr \"%s\")" % rng.choice(["(setf i 4)", "(println i)", "(def n1 (list i j))", "(no-fn)", "(+ 1", "(return 3)"])
    if k == 21:
        return rng.choice(["(return 5)", "(do (return 1) (println 2))", "(while (< j 4) (setf j (+ j 1)))", "(if (> i 1) (println \"big\") (println \"small\"))", "(args)", "(argscount)", "(arg 0)"])
    if k == 22:
        return rng.choice(["(import \"m1.fuel\")", "(import \"m2.fuel\")", "(import \"none\")"])
    if k == 23:
        return "(delvar '%s)" % v
    if k == 24:
        return rng.choice(["(readline)", "(println (readline))", "(do (setf i (len (readline))) (println i))"])
    if k == 25:
        return rng.choice(["(trace #t)", "(println (gettrace))", "(trace #f)"])
    if k == 26:
        return rng.choice(["(string \"{0}\" \"{1}\")", "(list \"{0}\" 'a)", "(string \"a\\nb\")", "(string)", "(list)", "(make-dict)", "(format \"{0,5}|\" i)", "(def n2 \"{0} {1}\")", "(println \"{0}\")"])
    if k == 27:
        return rng.choice(["(vars)", "(do (def n1 1) (vars))", "(break)", "(f0 (break))", "(mac (println i))", "(define-macro-eval m2 (a) (list a a))", "(m2 x)"])
    if k == 28:
        return "(eval '(setf %s (list %s)))" % (v, n)
    if k == 29:
        return "(def %s (lambda (x) (+ x %s)))" % (rng.choice(["h1", "n1"]), v)
    return "  (+ %s 1)  " % v


def command(rng, expr):
    k = rng.random()
    if k < expr:
        return typed(rng)
    if rng.random() < 0.25:
        return rng.choice(["modules", "macros", "doc f0", "doc f", "doc ma", "searchdoc f1", "searchdoc 1", "doc nothing", "doc )", "searchdoc \"a", "doc (", "doc h1 x", "doc first", "funcs", rng.choice(["builtins", "doc", "searchdoc", "help", "h", "about"])])
    return rng.choice(["s", "s", "s", "step", "v", "over", "v", "o", "out", "r", "run", "k", "u", "up", "d", "down", "d", "l", "locals", "g", "stack"])


def long_session(rng, i):
    """a deep call stack and many frame commands, expressions, functions and long lines"""
    n = rng.randint(6, 45)
    p = "(def i 1)\n(def j 2)\n(def l '(1 2 3))\n(defn f0 (x) (list x i))\n(defn r (n x)\n (do (def loc (* n 2))\n  (if (> n 0)\n   (+ 1 (r (- n 1) (+ x i)))\n   (do (setf j 7)\n    %s))))\n(r %d 5)\n(println i j l)" % (rng.choice(["(+ 1 2)", "(first 5)", "(do (break) (+ 1 2))", "(no-fn)"]), n)
    cmds = [rng.choice(["b 9", "b 10", "b 9"]), "r"]
    for _ in range(rng.randint(5, 60)):
        k = rng.randint(0, 9)
        if k == 0:
            cmds += [rng.choice(["d", "u", "d"])] * rng.randint(1, n + 3)
        elif k == 1:
            cmds.append(rng.choice(["k", "l", "stack", "g"]))
        elif k == 2:
            cmds.append(rng.choice(["v", "o", "s", "o"]))
        elif k == 3:
            m = int(5 * 60 ** rng.random())
            cmds.append(rng.choice(["(+ %s)" % " ".join(["n"] * m), "(println \"%s\" n x)" % ("t" * m * 4), "(list %s)" % " ".join("%d" % q for q in range(m)), "(do %s)" % " ".join("(setf i (+ i 1))" for q in range(min(m, 60)))]))
        elif k == 4:
            cmds.append("(def v%d (list n x))" % rng.randint(0, 40))
        elif k == 5:
            cmds.append(rng.choice(["(list n x loc)", "(setf loc (list n x))", "(setf x 1)", "(rval loc)", "(println n x loc i j)"]))
        else:
            cmds.append(typed(rng))
    return p, cmds


def make(rng, i):
    """dialogue at stops of a program"""
    kind = "dbg" if i % 4 else "main"
    x = Case("", module="p.fuel" if rng.random() < 0.7 else "command-line")
    p = program(rng) if kind == "dbg" else ""
    cmds = []
    if kind == "dbg" and rng.random() < 0.25:
        cmds.append("r")                # to the first error
    for _ in range(rng.randint(1, 7)):
        if kind == "dbg":
            k = rng.randint(0, 4)
            cmds += [rng.choice("sssssssvo")] * rng.choice([0, 1, 2, 4, 9]) if k else ["b %d" % rng.randint(1, 2 + p.count("\n")), "r"]
        cmds += [command(rng, 0.75 if kind == "dbg" else 0.95) for _ in range(rng.randint(1, 6))]
    if kind == "dbg" and i % 12 == 1:
        p, cmds = long_session(rng, i)
    if kind == "main":
        cmds = [c for c in cmds if c not in ("r", "run", "s", "step", "v", "over", "o", "out")]
    text = "\n".join(cmds) + rng.choice(["", "\n", "\nexit\n", "\nq\n", "\n\nr\n"])
    x.codes, x.inp, x.flags = [p], text, kind
    R._budget[0] = 400000
    s = Session(text, p23.FILES)
    try:
        x.ref = s.run(p, x.module) if kind == "dbg" else s.interactive()
    except R.Unsupported as e:
        x.err = "unsupported: " + str(e)
    except (R.OutOfSteps, RecursionError):
        x.err = "too many steps"
    x.note, x.steps = s.stats, s.steps
    return x


def matches(got, want):
    if ANY not in want:
        return got == want
    return re.fullmatch("[^\n]*".join(re.escape(t) for t in want.split(ANY)), got) is not None


def go():
    c = Check("P40", rule="dialogues of correct and failing expressions (reading, changing, defining, deleting variables and functions, calls, imports, evaluated text, output, input, incomplete texts) and of stepping and frame commands at every kind of stop of random programs (steps, errors leaving functions, break), and at the prompt without program; the complete transcript is compared with a reference interpreter which is stopped at the same calls and evaluates the typed lines in the same frames")
    u = c.run([runner.Req("main", "help\n", "-i"), runner.Req("main", "about\n", "-i")])
    for r, k in zip(u, "ha"):
        o = r.r[0]["o"]
        INFO[k] = o[len(HEADER) + len(PROMPT):-len(PROMPT)]
    for w in ("help version about code stack up down run step over out break clear list restart locals globals modules builtins funcs macros doc searchdoc exit").split():
        c.saw("help: " + w)
        if not any(x.startswith(w) for x in re.sub("[()]", "", INFO["h"]).replace("  ", "\n").split("\n")):
            c.violation("help:" + w, "the help does not show the command " + w, INFO["h"])
    cases = generate(make, c.n(2600, 40000), c.label("dialogues"), predict=False)
    for x in cases:
        if x.err:
            c.skipped[x.err] = c.skipped.get(x.err, 0) + 1
    cases = [x for x in cases if not x.err]
    res = c.run([runner.Req("dbg", x.module, x.inp, x.codes[0]) if x.flags == "dbg" else runner.Req("main", x.inp, "-i") for x in cases], files=p23.FILES)
    for x, r in zip(cases, res):
        if c.crash(r, x.show()):
            continue
        c.saw((x.codes, x.inp), {"program": x.codes[0], "commands": x.inp, "observed": x.note}, nontrivial=x.note["expressions"] > 0)
        for k, v in x.note.items():
            c.stat(k, v)
        c.stat("steps predicted", x.steps)
        got = re.sub(r"^(.*--> \S+ line=-?\d+) start=\S+ stop=\S+ ", r"\1 ", r.r[0]["o"], flags=re.M)
        got, want = chk.nn(got), chk.nn(x.ref)
        if r.r[0]["k"] != "ok" or not matches(got, want):
            a, b = got.split("\n"), want.split("\n")
            n = next((i for i, (u, v) in enumerate(zip(a, b)) if not matches(u, v)), min(len(a), len(b)))
            a, b = "\n".join(a[max(0, n - 3):n + 6]), "\n".join(b[max(0, n - 3):n + 6])
            c.violation("dialogue:" + chk.key_of(x), "%s; the dialogue continues with\n%s\n  expected\n%s\n  program: %s\n  commands: %s" % (chk.brief(r.r[0])[:100] if r.r[0]["k"] != "ok" else "", a, b, chk.clip(x.codes[0], 1500), x.inp.replace("\n", " / ")), dict(x.show(), observed=got, predicted=want))
    c.finish()


if __name__ == "__main__":
    main(go)
