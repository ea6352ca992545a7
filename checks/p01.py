import sys, os, re, json, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
from chk import Check, Case, generate, main
import big, chk, wl, gen, runner, random

NAMES = sorted(json.load(open(os.path.join(os.path.dirname(HERE), "lib", "builtins.json"))))
NAMES = [n for n in NAMES if n != "sleep"]
FILES = {"m.fuel": "(def mv (list 1 2)) (defn mf (a) (list a mv))", "bad.fuel": "(def a 1)\n(no-fn a)", "broken.fuel": "(def a (list 1", "t.txt": "some text\nlines\n", "deep.fuel": "(import \"m.fuel\") (defn df (a) (mf (mf a)))"}
PRE = ("(import \"m.fuel\") (def l (list 1 2 3)) (def e (list)) (def s \"text which is not so short\") (def d (make-dict)) (dict-set d 1 2) (dict-set d \"k\" l) (dict-set d 2.5 (list)) (def x 5) (def fl 1.5) (defn f (a) a) (defn g () x) (def c (lambda (a) (+ a x)))"
       " (define-macro-eval m (a) a) (define-macro-expand me (a) (list 'list 'a)) (defn h (a b) (list a b)) (def nested (list (list 1 2) (list (list 3) d) \"q\")) (defn va (a b) (args)) (def n nil) (defn mkc (k) (lambda () (setf k (+ k 1)))) (def cc (mkc 1))")
POOL = ["nil", "#t", "#f", "0", "1", "-1", "2", "3", "7", "100", "2147483647", "-2147483648", "0.0", "-1.5", "1e308", "-1e308", "(Math-Log 0)", "(Math-Sqrt -1)", "\"\"", "\"a\"", "\"text\"", "\"{0}\"", "\"{1,5} {\"", "\"\\n\\t\"", "\"12\"", "\"-2.5e3\"", "\"m.fuel\"", "\"no-such\"", "\"(+ 1 2)\"", "\"(\"", "\"first\"", "'()", "'(1 2 3)", "'((1 2) (3))", "'sym", "'l",
        "'(+ 1 2)", "'(quote a)", "(list)", "(list l d s)", "(list 1 (list 2 (list 3)))", "l", "e", "s", "d", "x", "fl", "n", "nested", "f", "c", "cc", "first", "map", "(lambda (a) a)", "(lambda () 1)", "(lambda (a b) (list a b))", "(make-dict)", "undefined-name", "m", "me", "(quote nil)", "`(1 ,x ,@l)", "''a", "(sym \"l\")", "(args)", "(dict-keys d)", "(nth 0 nested)", "(g)", "(def y 1)", "(setf x 6)",
        "(print \"\")", "(rval l)", "(str d)", "\"" + "long " * 60 + "\"", "'" + "(" * 40 + ")" * 40, "(first l)", "(cdr l)", "(push 4 l)", "(pop l)", "(delvar 'y)", "#t", "'(lambda (a) a)", "'(a b)", "(a b)", "()", "(1 2)", "(+)", "a", "\"\u00e4\u00ff\"", "(evalstr \"'(1 2)\")", "(str f)", "(eval ''(1 2))", "(no-fn 1)", "(/ 1 0)"]
CTX = ["%s"] * 14 + ["(println %s)", "(setf %s 5)", "(setf %s (list 6))", "(def r %s)", "(list %s %s)", "(first %s)", "(str %s)", "(typestr %s)", "(if %s %s %s)", "(map f %s)", "(map %s l)", "(apply %s l)", "(apply f (list %s))", "(eval '%s)", "(eval (list 'rval %s))", "`(1 ,%s ,@%s a)", "(m %s)", "(me %s)", "(h %s %s)", "(reduce %s l 0)", "(reduce + l %s)", "(dict-set (make-dict) %s %s)", "(len %s)",
                       "(return %s)", "(defn w () %s) (w)", "((lambda (q) %s) 1)", "(and #t %s)", "(do %s %s)", "(push %s (list 1 2))", "(nth %s l)", "(setf (nth %s (list 1 2)) %s)", "(string %s %s)", "(== %s %s)", "(+ 1 %s)", "(c %s)", "(def %s %s)", "(trace %s)", "(doc %s)", "(va %s %s)", "(evalstr (string \"\" %s))", "(while (< x 8) (do (setf x (+ x 1)) %s))"]
PROBE = "(list 1 (+ 1 2))"


ATOMS = POOL[:31] + ["'(1 2 3)", "(list 4 5)", "(make-dict)", "f", "first", "'sym", "undefined-name", "(no-fn 1)", "'((1) 2)"]


def call(rng, d=0):
    n = rng.choice(NAMES)
    k = rng.choice([0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5])
    args = [call(rng, d - 1) if d > 0 and rng.random() < 0.25 else rng.choice(POOL) for _ in range(k)]
    # no value is put into itself: traversing such a value does not end (see DESIGN.md)
    if n in ("push", "dict-set", "setf", "reduce", "apply", "map"):
        args = [a if j == {"push": 1, "dict-set": 0, "setf": 0}.get(n, -1) or n in ("reduce", "apply", "map") and a not in ("push", "dict-set", "setf") else rng.choice(ATOMS) for j, a in enumerate(args)]
    return "(" + " ".join([n] + args) + ")"


def endless(code):
    """a loop without a call cannot be ended by the observer"""
    return re.search(r"while\s+[^(\s]", code) is not None


def fill(rng, t, mk):
    while "%s" in t:
        t = t.replace("%s", mk(), 1)
    return t


def make_builtin(rng, i):
    codes = [PRE]
    if i < len(NAMES):       # every builtin with every value as the single argument
        for v in POOL:
            codes.append("(%s %s)" % (NAMES[i], v))
    elif i < 2 * len(NAMES):     # and with two values, a sample
        for _ in range(90):
            codes.append("(%s %s %s)" % (NAMES[i - len(NAMES)], rng.choice(POOL), rng.choice(POOL)))
    else:
        for _ in range(rng.randint(4, 30)):
            codes.append(fill(rng, rng.choice(CTX), lambda: call(rng, 1)))
    codes = [x for x in codes if not endless(x)]
    return Case(codes + [PROBE], files=FILES, flags=rng.choice(["l", "l", "l", "lt", "lx"]), inp=rng.choice(["", "a\nb\n", "x"]))


# ------------------------------------------------------------ positions at and around both ends
BOUNDS = ["(do (defn w () (arg %i)) (w %a))", "(do (defn w (p q) (arg %i)) (w %a))", "(do (defn w (p) (list (arg %i) (args) (argscount))) (w %a))", "(apply (lambda () (arg %i)) (list %a))", "(map (lambda (z) (arg %i)) (list %a))", "(do (defn w () (do (arg %i) (setf (arg %i) 5))) (w %a))", "(nth %i (list %a))", "(do (def q (list %a)) (setf (nth %i q) 7) (list q))", "(nth %i \"%t\")", "(slice \"%t\" %i 1)", "(slice \"%t\" %i -1)", "(slice \"%t\" 0 %i)", "(slice \"%t\" %i %j)", "(search \"x\" \"%t\" %i)", "(search \"\" \"%t\" %i)", "(search \"x\" \"%t\" %i %j)", "(search \"\" \"%t\" %i %j)", "(search 1 (list %a) %i)", "(search 1 (list %a) %i %j)",
          "(do (def q (list %a)) (push 5 q %i) (list q))", "(do (def q (list %a)) (pop q %i) (list q))", "(do (def q (list %a)) (setf (first q) 1) (setf (last q) 2) (list q (first q) (last q) (rest q) (pop q) (pop q 0)))", "(do (defn w () (rest (args))) (w %a))", "(do (defn w () (do (pop (args)) (arg %i))) (w %a))", "(do (defn w (p) (do (push 9 (args) %i) (arg %j))) (w %a))", "(list (first \"%t\") (last \"%t\") (rest \"%t\") (len \"%t\"))", "(replace \"%t\" (slice \"%t\" %i 1) \"yy\")", "(format \"{%i}|{%i,%j}\" %a)", "(<< %i %j)", "(>> %i %j)", "(list (/ %i 1) (mod %i 3))"]


def make_bounds(rng, i):
    t = BOUNDS[i % len(BOUNDS)]
    codes = [PRE]
    for n in range(5):
        for k in list(range(-2, n + 3)) + [2147483647, -2147483648]:
            codes.append(t.replace("%a", " ".join(rng.choice(["1", "\"x\"", "l", "nil", "(list 1)"]) for _ in range(n))).replace("%t", "x" * n if i % 2 else "abxy"[:n]).replace("%i", str(k)).replace("%j", str(rng.choice([k, n, n - 1, n + 1, 0, 1, -1, n - k, n - k + 1]))))
    return Case([codes[0]] + [x for x in codes[1:] if "2147483649" not in x] + [PROBE], files=FILES, flags="l", note="bounds")


# ------------------------------------------------------------ values which change while they are used
ITER = ["(map %c l)", "(map %c (dict-keys d))", "(map %c nested)", "(reduce %c2 l 0)", "(reduce %c2 nested l)", "(apply %c (list l))", "(apply %c2 l2)", "(apply %c2 (list l d))", "(map (lambda (q) (map %c l)) l)", "(reduce (lambda (q r) (map %c l)) l l)", "(wf (mut 1) l)", "(wf l (mut 1))", "(list l (mut 1) l d)", "(append l (mut 1) l)", "(setf (nth (mut 1) l) (do (mut 2) 3))", "(setf (first l) (do (mut 1) (list 2)))", "(string l (mut 1) s l)",
        "(push (do (mut 1) 4) l)", "(dict-set d (do (mut 1) 5) (do (mut 2) \"v\"))", "(dict-set d (mut 1) 2)", "(dict-set d l (mut 2))", "(while (< (len l) 9) (do (push 1 l) (mut 1)))", "(def l (mut 1))", "(setf l (map %c l))", "(nth (mut 1) l)", "`(,(mut 1) ,@l ,(mut 2) ,@l)", "(eval (list 'map 'mut 'l))", "(mut (mut (mut 1)))", "(println l (mut 1) l)", "(mm (mut 1))", "(== l (mut 1))", "(== d (mut 1))", "(pop l (mut 0))", "(cons (mut 1) l)", "(slice s (mut 1) 1)", "(if (== 1 1) (mut 1) l)", "(self 3)", "(setf (acc (mut 1)) (do (mut 2) 3))", "(search (mut 1) l)", "(mut l)", "(cc) (mut 1) (cc)"]
MUT = ["(push 9 l)", "(push 9 l 0)", "(pop l)", "(pop l 0)", "(setf l nil)", "(setf l 5)", "(setf l (list))", "(delvar 'l)", "(def l (list 7 8))", "(gdef l (list 5))", "(setf (nth 0 l) (list 3 (list 4)))", "(setf (first l) nil)", "(setf (nth 0 l) (list s 2))", "(dict-clear d)", "(dict-remove d 1)", "(dict-remove d \"k\")", "(dict-set d 99 l)", "(dict-set d 1 nil)", "(setf d nil)", "(def d (make-dict))", "(setf nested (list l l))", "(setf (nth 0 nested) (list 5))", "(pop nested)", "(push l nested)",
       "(defn mut (q) (rval 3))", "(gdefn mut (q) (list q))", "(setf mut first)", "(delvar 'mut)", "(defn wf (a b) a)", "(delvar 'wf)", "(setf wf nil)", "(setf q l)", "(setf q nil)", "(delvar 'q)", "(def q (lambda (z) q))", "(setf c q)", "(return l)", "(return q)", "(define-macro-eval mm (a) (list a a))", "(import \"m.fuel\")", "(setf cc (lambda () (delvar 'cc)))", "(delvar 'cc)", "(delvar 'l2)", "(setf l2 (list l d))", "(delvar 'acc)", "(defn self (k) k)", "(delvar 'self)", "(setf s \"\")", "(delvar 's)", "(evalstr \"(setf l (list 1))\")",
       "(eval '(delvar 'l))", "(no-fn 1)", "(push s l)", "(setf (nth 1 l) s)", "(setf l (list 4 \"5\" 6))", "(setf s (str l))", "(gettrace)", "(trace #t)", "(setf (args) 5)", "(push 5 (args))", "(pop (args))", "(map mut2 l)", "(wf q q)", "(def first last)", "(delvar 'first)", "(dict-keys d)", "(rval q)", "(setf rval 5)"]


def make_mutation(rng, i):
    body = lambda n: " ".join(rng.choice(MUT) for _ in range(n))
    codes = [PRE, "(def l2 (list l d)) (defn wf (a b) (list a b l)) (define-macro-eval mm (a) (do a (list a l))) (defn acc (k) (nth 0 l)) (defn mut2 (q) (setf (nth 0 l) 6)) (defn self (k) (if (> k 0) (do %s (self (- k 1)) %s) k))" % (body(1), body(1))]
    for _ in range(rng.randint(2, 6)):
        codes.append("(defn mut (q) (do %s %s))" % (body(rng.randint(1, 3)), rng.choice(["(rval q)", "l", "(rval l)", "1", "(list q l)", "(pop l)"])))
        t = rng.choice(ITER)
        t = t.replace("%c2", rng.choice(["(lambda (q r) (do %s (rval q)))" % body(rng.randint(1, 2)), "(lambda (q r) (do %s (list q r)))" % body(1), "wf"])).replace("%c", rng.choice(["mut", "(lambda (q) (do %s (rval q)))" % body(rng.randint(1, 2)), "c", "mut2"]))
        codes.append(t)
        if rng.random() < 0.5:
            codes.append(rng.choice(["(println l d nested)", "(def l (list 1 2 3))", "(vars)", "(list l l2 d)", "(mut 1)", "(len l)", "(def d (make-dict)) (dict-set d 1 l)"]))
    return Case(codes + [PROBE], files=FILES, flags=rng.choice(["l", "l", "lt"]), note="mutation")


# ------------------------------------------------------------ damaged programs and raw text
TOK = re.compile(r'"(?:\\.|[^"\\])*"|[()\'`]|,@|,|[^\s()\'`,"]+|\s+')
JUNK = ["(", ")", "'", "`", ",", ",@", "\"", ";", "nil", "0", "-", ".", "#t", "()", "(quote", "''", "\\", "\n", "2147483648", "-2147483649", "99999999999999999999", "1e999", "1.2.3", "#", "#x", "\u00ff", "\0", "(((((", ")))", ";c\n", "first", "map", "l", "\"a", "(do", "(list", "-1", "(eval", "(return", "1e", "0x10", "+1", "--", "1-", "\t"]


def damage(rng, code):
    t = TOK.findall(code)
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        if not t:
            break
        j = rng.randrange(len(t))
        k = rng.randint(0, 6)
        if k == 0:
            del t[j]
        elif k == 1:
            t.insert(j, rng.choice(JUNK))
        elif k == 2:
            t[j] = rng.choice(JUNK)
        elif k == 3:
            o = rng.randrange(len(t))
            t[j], t[o] = t[o], t[j]
        elif k == 4:
            o = min(len(t), j + rng.randint(1, 8))
            t[j:j] = t[rng.randrange(len(t)):][:o - j]
        elif k == 5:
            del t[j:j + rng.randint(1, 8)]
        else:
            t[j] = rng.choice(t)
    return "".join(t)


def make_damaged(rng, i):
    g = gen.G(rng, faults=rng.choice([0, 0.05, 0.2]), depth=3)
    codes = []
    for _ in range(rng.randint(2, 5)):
        x = g.program(rng.randint(1, 5))
        if rng.random() < 0.3:
            x += " " + rng.choice(["(define-macro-eval m%d (a) (list a))" % rng.randint(0, 2), "(m0 1)", "(m1 (m0 2))", "`(1 ,(+ 1 2) ,@(list 1))", "(evalstr \"(+ 1 2)\")", "(eval '(+ 1 2))"])
        if rng.random() < 0.8:
            x = damage(rng, x)
        codes.append(x)
    codes = [x for x in codes if not endless(x) and "sleep" not in x]
    return Case([PRE] + codes + [PROBE], files=FILES, flags=rng.choice(["l", "l", "lt"]), inp="in\n", note="damaged")


def raw(rng):
    k = rng.randint(0, 4)
    if k == 0:
        return "".join(chr(rng.randint(0, 255)) for _ in range(rng.randint(0, 40)))
    if k == 1:
        return "".join(rng.choice(JUNK) + rng.choice(["", " "]) for _ in range(rng.randint(0, 25)))
    if k == 2:
        return "".join(rng.choice("()'`,@\"\\; \nab1.-#+\t\r\u00e4") for _ in range(rng.randint(0, 60)))
    if k == 3:
        n = rng.randint(1, 400)
        return rng.choice(["(" * n, ")" * n, "'" * n, "`" * n, "," * n, "(list " * n + ")" * n, "\"" * n, "\\" * n, "'(" * n + ")" * n, "(+ 1 " * n + "1" + ")" * n, "(do " * n, "-" * n, "1" * n, "\"" + "\\" * n + "\"", ";" * n, "(quote " * n + "a" + ")" * n, "(rval " * n + "1" + ")" * n])
    return damage(rng, rng.choice(["(+ 1 2)", "(defn f (a) (list a \"x\")) (f 1)", "'(1 2 (3 . 4))", "`(1 ,(+ 1 2) ,@(list 1 2))", "; comment\n(println \"a\\\"b\")", "(def a 1.5e3) (setf a -7)"]))


def reqs_raw(rng, n):
    out = []
    for i in range(n):
        x = raw(rng)
        k = rng.randint(0, 5)
        if endless(x):
            continue
        if k == 0:
            out.append(runner.Req("tok", str(rng.choice([0, 0, 0, 1, 5, len(x)])), x))
        elif k == 1:
            out.append(runner.Req("parse", str(rng.choice([0, 0, 0, 1, 5, len(x)])), x))
        elif k == 2:
            out.append(runner.ev("(+ 1 %s)" % x, x, "(list %s)" % x, "'%s" % x, PROBE, flags="l"))
        elif k == 3:
            out.append(runner.Req("save", rng.choice(["", "v", "t", "x", "vt"]), rng.choice(["main", "", "a b"]), "in\n", x))
        else:
            out.append(runner.ev("(evalstr %s)" % wl.lit(x), "(parse-integer %s)" % wl.lit(x), "(parse-float %s)" % wl.lit(x), "(format %s 1 \"two\" l)" % wl.lit(x), "(sym %s)" % wl.lit(x), "(def v %s)" % wl.lit(x), "(doc %s)" % wl.lit(x), "(import %s)" % wl.lit(x), "(println %s)" % wl.lit(x), PROBE, flags="l"))
    return out


# ------------------------------------------------------------ command line and debugger
CMDS = ["", "help", "about", "funcs", "macros", "builtins", "doc", "doc first", "doc nothing", "searchdoc fi", "searchdoc", "modules", "clear", "clear 1", "clear 99", "clear -1", "clear x", "stack", "k", "code", "c", "list", "t", "break", "break 3", "b 3", "b x", "b 3 main", "b 2 main (> x 1)", "b 3 \"main\" (", "b 3 m (no-fn)", "b 99999999999", "b -1", "up", "u", "down", "d", "step", "s", "over", "v", "out", "o", "run", "r", "locals", "l", "globals", "g", "restart", "version", "ver",
        "(+ 1 2)", "(", ")", "x", "(def x 5)", "(no-fn)", "(f 1)", "\"open", "'", "(delvar 'f)", "(setf x (list x))", "(return 5)", "(vars)", "(import \"m.fuel\")", "(evalstr \"(\")", "up up", "break 1 2 3 4 5", "b 1 main 5", "b 2 other (== 1 1)", "quit x", "\u00ff", "doc (", "(f (f 1))", "stack 5", "clear clear", "b", "bb", "(break)"]
SCRIPTS = ["(def x 1)\n(defn f (a)\n  (do (def b a)\n      (+ a b)))\n(f x)\n(map f (list 1 2))\n(println (f 2))\n", "(defn g (n)\n (if (> n 0)\n  (g (- n 1))\n  (no-fn n)))\n(def x 3)\n(g x)\n(println x)", "(define-macro-eval m (a)\n (+ a 1))\n(def x 1)\n(m 2)\n(m x)\n(evalstr \"(+ 1 2)\")\n(import \"deep.fuel\")\n(df 1)\n(setf x 5)", "", "(", "(def x 1)\n(while (< x 4)\n (setf x\n  (+ x 1)))\n(break)\n(list x)", "(no-fn)", "(/ 1 0)\n(f)"]


def make_dbg(rng):
    cmds = [rng.choice(CMDS) for _ in range(rng.randint(1, 25))]
    cmds = [x for x in cmds if x or rng.random() < 0.1]
    return runner.Req("dbg", rng.choice(["main", "", "a/b.fuel"]), "\n".join(cmds) + rng.choice(["\nexit\n", "\nrun\nexit\n", "\nquit\n", "\n", ""]), rng.choice(SCRIPTS))


ARGS = ["-e", "-x", "-t", "-m", "-v", "-d", "-c", "-s", "-l=.", "-l=", "-h", "--help", "--doc", "--html", "--macro-expand", "--version", "-", "--", "", " ", "m.fuel", "bad.fuel", "broken.fuel", "missing.fuel", "t.txt", "deep.fuel", "(+ 1 2)", "(println \"a\")", "(no-fn)", "(", "\u00ff", "-e(+ 1 2)", "-unknown", "-tt", "--x", ".", "/", "-i"]


def make_main(rng):
    return runner.Req("main", "\n".join(rng.choice(CMDS) for _ in range(rng.randint(0, 6))) + "\nexit\nexit\nexit\nexit\n", *[rng.choice(ARGS) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4]))])


def go():
    c = Check("P01", rule="every builtin and special form with hostile arguments of all kinds and counts, alone, nested and in all contexts, in histories within one environment; every position at and around both ends of lists, texts and arguments; values, functions and variables changed and deleted while calls, callbacks and loops use them; damaged programs; raw bytes through tokenizer, parser, evaluation and data builtins; hostile debugger dialogues and command lines. Oracle: address, undefined behaviour and container sanitizers, the checked standard library, memcheck for uninitialised values, and the rule that every evaluation ends with a value or a script error and leaves the environment usable")
    c.assumptions += ["evaluations are ended by the observer after 4000 calls or 300 MB; loops without any call are not generated", "exhausted memory or stack of damaged programs is not judged"]
    kinds = {}

    def judge(res, shows, probe=True, loose=False):
        for r, (show, n) in zip(res, shows):
            if r is None:
                c.stat("not run")
                continue
            if loose and (r.rec is None or r.crash) and (r.hang or re.search(r"hard rss limit|stack-overflow|out-of-memory|requested allocation size|exceeds maximum", r.stderr or "")):
                c.inconclusive += 1
                c.stat("resources exhausted")
                continue
            if c.crash(r, show):
                continue
            c.saw(show, {"request": show, "observed": [chk.brief(x) for x in r.r][:6]})
            for j, x in enumerate(r.r):
                kinds[x["k"]] = kinds.get(x["k"], 0) + 1
                if x["k"] in ("std", "other") or (x["k"] == "stop" and "l" not in n):
                    c.violation("kind:" + chk.key_of(Case([chk.brief(x)])), "evaluation %d ended with %s instead of a value or a script error: %s" % (j + 1, chk.brief(x), chk.clip(str(show))), {"request": show, "observed": r.r})
                elif x["k"] == "ok":
                    c.stat("values")
            if probe and r.r and (r.r[-1]["k"] != "ok" or r.r[-1]["v"] != "(i1 i3)"):
                # (a program may replace or delete list and +, or a variable of that name)
                text = json.dumps(show)
                if not re.search(r"[ (\"](def|setf|gdef|defn|gdefn|delvar|import|define|dict|evalstr|eval|lx)", text.replace("lx\"", "")):
                    c.violation("probe:" + chk.key_of(Case([text])), "the environment is not usable any more: %s" % chk.brief(r.r[-1]), {"request": show, "observed": r.r})

    def batch(cases, variant, loose=False, **kw):
        shows = [(x.show(), x.flags) for x in cases]
        judge(c.run([x.req() for x in cases], variant, files=FILES, **kw), shows, False, loose)
        c.stat("evaluations on " + variant, sum(len(x.codes) for x in cases))

    b = generate(make_builtin, c.n(2 * len(NAMES) + 700, 12000), c.label("builtin"), predict=False)
    m = generate(make_mutation, c.n(2200, 40000), c.label("mutation"), predict=False)
    dm = generate(make_damaged, c.n(1500, 25000), c.label("damaged"), predict=False)
    batch(b, "asan", batch=60)
    batch(generate(make_bounds, c.n(len(BOUNDS), 8 * len(BOUNDS)), c.label("bounds"), predict=False), "asan")
    batch(m, "asan")
    batch(dm, "asan", True)
    batch(generate(lambda r, i: big.mixed(r, i), c.n(260, 4000), c.label("big"), predict=False), "asan")
    rng = c.rng("raw")
    rr = reqs_raw(rng, c.n(2500, 40000))
    judge(c.run(rr, "asan", files=FILES), [(q.show(), "l") for q in rr], False)
    dd = [make_dbg(rng) for _ in range(c.n(700, 9000))]
    judge(c.run(dd, "asan", files=FILES), [(q.show(), "l") for q in dd], False)
    mm = [make_main(rng) for _ in range(c.n(500, 6000))]
    judge(c.run(mm, "asan", files=FILES), [(q.show(), "") for q in mm], False)
    c.stat("texts", len(rr))
    c.stat("dialogues", len(dd))
    c.stat("command lines", len(mm))
    # the checked containers and iterators, other values
    batch(generate(make_mutation, c.n(500, 15000), c.label("mutation2"), predict=False), "dbg")
    batch(generate(lambda r, i: make_builtin(r, 10 ** 6), c.n(120, 4000), c.label("builtin2"), predict=False), "dbg")
    rr2 = reqs_raw(rng, c.n(400, 10000))
    judge(c.run(rr2, "dbg", files=FILES), [(q.show(), "l") for q in rr2], False)
    # uninitialised values
    vg = ["/usr/bin/valgrind", "-q", "--error-exitcode=78", "--exit-on-first-error=yes", "--max-stackframe=16000000", "--main-stacksize=8000000", "--child-silent-after-fork=yes"]
    if os.path.exists(vg[0]):
        vr = [x.req() for x in generate(lambda r, i: make_builtin(r, 10 ** 6), c.n(24, 900), c.label("vg1"), predict=False) + generate(make_mutation, c.n(24, 900), c.label("vg2"), predict=False) + generate(make_damaged, c.n(24, 900), c.label("vg3"), predict=False)]
        vr += reqs_raw(rng, c.n(60, 2000)) + [make_dbg(rng) for _ in range(c.n(24, 600))] + [make_main(rng) for _ in range(c.n(24, 600))]
        rng.shuffle(vr)
        judge(c.run(vr, "plain", files=FILES, prefix=vg, hang_s=120, env={"DRV_STACK_MB": "64", "DRV_NO_LIMIT_HEAP": "1"}), [(q.show(), "l") for q in vr], False, True)
        c.stat("requests under memcheck", len(vr))
    c.stats["ends"] = kinds
    c.finish()


if __name__ == "__main__":
    main(go)
