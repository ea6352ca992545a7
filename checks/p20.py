import sys, os, re, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, gen, runner, random
import p01, p02, battery

FILES = dict(p01.FILES, **p02.FILES)
FILES["m.fuel"] = "(def mv (list 1 2)) (defn mf (a) (list a mv)) (setf mv (list mv 5)) (def mcount 0) (defn mtick () (setf mcount (+ mcount 1))) (define-macro-eval mmac (a) (list a mv)) (define-macro-expand mexp (a) (list 'list 'a 1))"
# each of these leaves a mark which another environment could notice
MARKS = ["(def x%d %d)", "(gdef g%d %d)", "(defn f%d (a) (+ a %d))", "(defn shared (a) (list a %d))", "(gdefn shared (a) (list %d a))", "(define-macro-eval sm (a) (list a %d))", "(define-macro-expand se (a) '(+ a %d))", "(define-macro sq (a) (list %d a))", "(def first last)", "(def + -)", "(gdef * +)", "(defn map (a b) %d)", "(delvar 'map)", "(delvar 'first)", "(trace #t)", "(def list %d)", "(setf shared %d)", "(import \"m.fuel\")", "(mtick)", "(mtick) (mtick)",
         "(def lst (list 1 2 %d)) (setf (nth 0 lst) lst2)", "(push %d lst)", "(def lst '(1 2))", "(defn grow () (do (def q '(1 2)) (push %d q) q))", "(grow)", "(setf (first '(1 2 3)) %d)", "(defn lit () '(1 2 3))", "(setf (first (lit)) %d)", "(push %d (lit))", "(def c (lambda (a) (+ a %d)))", "(defn mk () (do (def n %d) (lambda () (setf n (+ n 1)))))", "(def cnt (mk))", "(cnt)", "(dict-set d1 %d 1)", "(def d1 (make-dict))", "(defn true (a) %d)", "(def nil %d)", "(def #t %d)",
         "(no-fn %d)", "(shared)", "(/ 1 0)", "(import \"bad.fuel\")", "(import \"broken.fuel\")", "(import \"no-file.fuel\")", "(eval (list 'def 'dyn %d))", "(evalstr \"(def dyn %d)\")", "(evalstr \"(println \\\"es\\\" %d)\")", "(evalstr \"(evalstr \\\"(print %d)\\\")\")", "(defn ep (a) (evalstr \"(println a %d)\")) (ep 5)", "(def doc1 1) ; documented\n(defn doc-me (a) a)", "; hello %d\n(defn doc-me (a) a)", "(trace #f)", "(readline)", "(def s (string \"a\" %d))", "(setf rval %d)", "(setf m5 %d)", "(File-Exists \"m.fuel\")", "(return %d)", "(while #t (no-fn))", "(def args %d)", "(setf (nth 9 lst) 1)"]
LOOKS = ["(list x1 x2 x3)", "(list g1 g2 g3)", "(f1 1)", "(f2 1)", "(shared 5)", "(sm 7)", "(se 7)", "(sq 7)", "(first '(1 2 3))", "(+ 5 3)", "(* 5 3)", "(map (lambda (a) a) '(1 2))", "(gettrace)", "(list 1 2)", "(vars)", "(println lst lst2)", "(mf 1)", "(mtick)", "(mmac 1)", "(mexp 2)", "(lit)", "(grow)", "(cnt)", "(c 1)", "(dict-keys d1)", "(doc 'doc-me)", "(doc 'shared)", "(doc 'first)", "(need-l-value)", "(args)", "(argscount)", "(searchdoc \"mac\")", "mcount", "(list mv mcount)", "(readline)", "(list dyn s)", "(nth 1 '(7 8 9))", "(rval 3)", "(typestr shared)",
         "(str shared)", "(str first)", "(list first shared c)", "(format \"{0} {1}\" 1.5 first)", "(str 0.1)", "(version)", "(platform)", "(evalstr \"(+ 1 2)\")", "(evalstr \"(println 1 2)\")", "(evalstr \"(readline)\")", "`(1 ,(+ 1 1) ,@(list 3))", "(not #t)", "(Math-Pi)", "(list nil #t #f)", "(mod 7 3)", "(sym \"a\")", "(dict-keys (make-dict))", "(println (make-dict))", "(quasiquote (a (unquote (+ 1 2))))", "(help)", "(copyright)", "(fuel)"]


def one(rng):
    k = rng.random()
    if k < 0.45:
        return fillnum(rng, rng.choice(MARKS))
    if k < 0.8:
        return rng.choice(LOOKS)
    if k < 0.9:
        g = gen.G(rng, faults=0.1, depth=2)
        x = g.program(rng.randint(1, 3))
        return x + " (list %s)" % " ".join(g.visible("any")[:5])
    return p01.call(rng, 1)


def fillnum(rng, t):
    while "%d" in t:
        t = t.replace("%d", str(rng.randint(1, 3)), 1)
    return t


def history(rng):
    codes = ["(def lst (list 1 2 3)) (def lst2 (list 4)) (def d1 (make-dict))" + (" " + p01.PRE if rng.random() < 0.4 else "")]
    if rng.random() < 0.1:
        flags, codes, inp = battery.foreign(rng)
        return list(zip(flags, codes)), inp
    codes += [one(rng) if rng.random() < 0.85 else rng.choice(battery.BATTERY) for _ in range(rng.randint(2, 9))]
    codes = [x for x in codes if not p01.endless(x) and "tickcount" not in x and "File-Write" not in x and "date-time" not in x or x == "(while #t (no-fn))"]
    return [(rng.choice(["", "", "", "t", "x"]) if i else "", x) for i, x in enumerate(codes)], rng.choice(["", "l1\nl2\nl3\n"])


def make(rng, i):
    n = rng.choice([2, 2, 3, 4, 6]) if i % 40 != 3 else rng.randint(10, 60)
    hs = [history(rng) for _ in range(n)]
    if n > 9:       # many environments with short histories, much used ones among them
        hs = [(h[0][:rng.choice([2, 3, 4])] + (h[0][1:] * 8 if k < 2 else []), h[1]) for k, h in enumerate(hs)]
    if rng.random() < 0.3:          # the same history twice: repetition gives the same result
        hs[1] = hs[0]
    pos = [0] * n
    ops, alive = [], set()
    extra = 0
    late = rng.random() < 0.5
    if not late:
        order = list(range(n))
        rng.shuffle(order)
        for e in order:
            ops.append(("n", str(e), "l", hs[e][1], ""))
            alive.add(e)
    while any(pos[e] < len(hs[e][0]) for e in range(n)):
        e = rng.choice([k for k in range(n) if pos[k] < len(hs[k][0])])
        if e not in alive:
            ops.append(("n", str(e), "l", hs[e][1], ""))
            alive.add(e)
        for _ in range(rng.choice([1, 1, 1, 2, 4])):
            if pos[e] < len(hs[e][0]):
                fl, x = hs[e][0][pos[e]]
                ops.append(("e", str(e), fl, "", x))
                pos[e] += 1
        if pos[e] >= len(hs[e][0]) and rng.random() < 0.6:
            ops.append(("d", str(e), "", "", ""))
        k = rng.random()
        if k < 0.08:
            extra += 1
            ops.append(("m", "x%d" % extra, "", "exit\n", rng.choice(["m.fuel", "bad.fuel\nm.fuel", "-e\n(println (+ 1 2) (first '(1 2)))", "-t\n-e\n(trace #t)", "--doc", "-e\n(def + -)", "-x\nbroken.fuel", "-unknown", "-v", "--macro-expand\nm.fuel", "-e\n(list mv)"])))
        elif k < 0.16:
            extra += 1
            ops.append(("s", "x%d" % extra, rng.choice(["", "v", "t"]), "", fillnum(rng, rng.choice(MARKS + LOOKS))))
        elif k < 0.22:
            extra += 1
            ops.append(("b", "x%d" % extra, "", rng.choice(["run\nexit\n", "s\ns\nl\nk\nb 2\nrun\nlist\nexit\n", "(def + -)\n(+ 5 3)\nmodules\nexit\n"]), "(def a 1)\n(println (+ a 1))\n(shared 1)"))
    return (hs, ops)


def alone(hs, ops):
    """each part of the history for itself"""
    out = []
    for e, (codes, inp) in enumerate(hs):
        r = [("n", str(e), "l", inp, "")] + [("e", str(e), fl, "", x) for fl, x in codes]
        out.append((str(e), r))
    for op in ops:
        if op[0] in "msb":
            out.append((op[1], [op]))
    return out


def req(ops):
    return runner.Req("multi", *[f for op in ops for f in op])


def clean(x):
    return {k: re.sub(r"compiled with \S+ v[0-9.]+", "compiled with X", v) for k, v in x.items() if k != "n"}


def go():
    c = Check("P20", rule="histories over two to six environments in one process, interleaved at random with creation, dropping, further programs run by the main function, the guarded evaluation and the debugger; each environment's values, outputs, errors and positions are compared with those of its part of the history run alone in another process with another build; repeated histories with each other")
    items = [make(random.Random("%s/%d" % (c.label("multi"), i)), i) for i in range(c.n(1400, 16000))]
    res = c.run([req(ops) for hs, ops in items], "asan", files=FILES)
    singles, index = [], []
    for k, (hs, ops) in enumerate(items):
        for name, r in alone(hs, ops):
            singles.append(req(r))
            index.append((k, name))
    order = list(range(len(singles)))
    random.Random(c.label("order")).shuffle(order)
    sres = [None] * len(singles)
    for i, r in zip(order, c.run([singles[i] for i in order], "plain", files=FILES, batch=25)):
        sres[i] = r
    switches = 0
    for (k, name), q, s in zip(index, singles, sres):
        m = res[k]
        hs, ops = items[k]
        if c.crash(s, q.show()) or m is None:
            continue
        if m.rec is None or m.crash:
            continue
        got = [clean(x) for x in m.r if x["n"] == name]
        exp = [clean(x) for x in s.r]
        c.saw((k, name), {"operations": [o[:3] + o[4:] for o in ops][:12]} if name == "0" else None)
        c.stat("evaluations compared", len(exp))
        for j, (g, e) in enumerate(zip(got, exp)):
            if chk.nn(json.dumps(g)) != chk.nn(json.dumps(e)):
                d = [f for f in sorted(set(g) | set(e)) if g.get(f) != e.get(f)]
                c.violation("isolation:" + chk.key_of(Case([str(q.show())])), "part %s of a history, evaluation %d: %s differs: alone %s, among others %s: %s" % (name, j + 1, d, chk.clip(str([e.get(f) for f in d])), chk.clip(str([g.get(f) for f in d])), chk.clip(str(q.fields))),
                            {"operations": ops, "part": name, "alone": exp, "observed": got})
                break
        if len(got) != len(exp):
            c.violation("count:" + chk.key_of(Case([str(q.show())])), "part %s: %d results alone, %d among others" % (name, len(exp), len(got)), {"operations": ops})
    for (hs, ops), m in zip(items, res):
        c.crash(m, {"operations": ops})
        last = None
        for o in ops:
            if o[0] == "e":
                if last is not None and last != o[1]:
                    switches += 1
                last = o[1]
    c.stats["environments"] = sum(len(hs) for hs, _ in items)
    c.stats["switches between environments"] = switches
    c.finish()


if __name__ == "__main__":
    main(go)
