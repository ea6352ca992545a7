import sys, os, re, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, main
import chk, wl, gen, runner, random, battery
import p01, p20

LOOPS = ["(do (def i 0) (while (< i 20) (do (setf i (+ i 1)) (def q (list i (string \"v\" i) (* i 0.5))))) q)", "(map (lambda (a) (* a 1.5)) '(1 2 3 4 5))", "(reduce + '(1 2 3) 0)", "(defn fib (n) (if (< n 2) n (+ (fib (- n 1)) (fib (- n 2))))) (fib 7)", "(println (str 1.25) 1e10 -0.5 \"a\\nb\" '(1 (2 \"x\")) first map)", "(format \"{0,10}|{1,-5}|{2}\" 1 2.5 \"x\")", "(string (str 2.5) 1.0e-5)",
         "(htmldoc)", "(doc)", "(searchdoc \"a\")", "(vars)", "(help)", "(date-time)", "(tickcount)", "(version)", "(platform)", "(import \"m.fuel\" \"deep.fuel\")", "(import \"no-file\")", "(parse-float \"2.5\")", "(parse-integer \"x\")", "(Math-Sqrt 2)", "(dict-keys d1)", "(evalstr \"(def dyn (list 1 2))\")", "(evalstr \"(\")", "(evalstr \"\\\"\\\\\")", "(no-fn 1)", "(first 5)", "(define-macro-eval mm (a b) (list a b)) (mm 1 2)", "(define-macro-expand me (a) (list '+ 'a 1)) (me 4)", "`(1 ,(+ 1 2) ,@(list 1 2))", "(trace #t) (println 5) (gettrace)",
         "(File-ReadAllText \"t.txt\")", "(File-Exists \"nothing\")", "(typestr (lambda (a) a))", "(str (lambda (a) a))", "(sym \"abc\")", "(upper-case \"abc\")", "(replace \"aXbX\" \"X\" \"--\")", "(defn doc-me (a b) a) (doc 'doc-me)", "(== '(1 2) '(1 2))", "(!= 1 \"1\")", "(args)", "(flush)", "(sleep 1)", "(float \"1.5\")", "(int \"12\")", "(readline)", "(print 1 2 3)", "(setf (nth 9 lst) 1)"]


def history(rng):
    codes = ["(def lst (list 1 2 3)) (def lst2 (list 4)) (def d1 (make-dict))" + (" " + p01.PRE if rng.random() < 0.3 else "")]
    codes += [rng.choice(LOOPS) if rng.random() < 0.6 else p20.one(rng) for _ in range(rng.randint(2, 8))]
    codes = [x for x in codes if not p01.endless(x) and "File-Write" not in x or x == "(while #t (no-fn))"]
    return [(rng.choice(["", "", "", "t", "x"]) if i else "", x) for i, x in enumerate(codes)], rng.choice(["", "l1\nl2\nl3\n"])


def part(rng):
    ops = []
    for e in range(rng.choice([1, 1, 2, 3])):
        codes, inp = history(rng)
        ops.append(("n", str(e), "l", inp, ""))
        for fl, x in codes:
            ops.append(("e", str(e), fl, "", x))
        if rng.random() < 0.6:
            ops.append(("d", str(e), "", "", ""))
        k = rng.random()
        if k < 0.2:
            ops.append(("m", "x", "", "exit\n", rng.choice(["m.fuel", "bad.fuel\nm.fuel", "-e\n(println (+ 1 2))", "--doc", "-x\nbroken.fuel", "-unknown", "-v", "--macro-expand\nm.fuel", "--html", "-h", "-d\nm.fuel"])))
        elif k < 0.4:
            ops.append(("s", "x", rng.choice(["", "v", "t"]), "", p20.fillnum(rng, rng.choice(p20.MARKS + p20.LOOKS))))
        elif k < 0.6:
            ops.append(("b", "x", "", rng.choice(["run\nexit\n", "s\ns\nl\nk\nb 2\nrun\nlist\nexit\n", "(def + -)\n(+ 5 3)\nmodules\nfuncs\nexit\n"]), "(def a 1)\n(println (+ a 1))\n(shared 1)"))
    return ops


def sweep(rng, times):
    """every piece of the battery runs in several threads at the same time"""
    out = []
    for k in range(times):
        order = list(battery.BATTERY)
        rng.shuffle(order)
        size = 24
        for i in range(0, len(order), size):
            codes = order[i:i + size]
            parts = []
            for _ in range(rng.choice([2, 3, 4])):
                if k % 3:
                    rng.shuffle(codes)
                parts.append([("n", "0", "l", "l1\nl2\n", "")] + [("e", "0", rng.choice(["", "", "", "t"]), "", x) for x in codes] + [("d", "0", "", "", "")])
            out.append(parts)
    return out


DEBUGGED = "(import \"m.fuel\")\n(defn f (a)\n (do\n  (def b (+ a 1))\n  (println \"b\" b)\n  (mf b)))\n(def i 0)\n(while (< i 3)\n (do\n  (setf i (+ i 1))\n  (f i)))\n(map (lambda (q) (f q)) '(1 2))\n(println \"end\")\n"
COMMANDS = ["s", "s", "step", "over", "v", "out", "o", "run", "r", "b 5", "b 4 \"(> a 1)\"", "b 1 \"m.fuel\"", "b 11 \"main\" \"(== i 2)\"", "break 5", "list", "clear 1", "clear", "k", "stack", "code", "l", "g", "up", "down", "help", "about", "funcs", "macros", "builtins", "doc", "doc first", "searchdoc \"ist\"", "modules", "version", "(+ a b)", "(setf b 7)", "(no-fn)", "(", "b", "b x", "clear 9", "restart"]


def debugged(rng):
    n = rng.choice([2, 3, 4])
    hs = [[("b", "x", "", "\n".join(rng.choice(COMMANDS) for _ in range(rng.randint(6, 20))) + "\nclear\nrun\nexit\n", DEBUGGED)] for _ in range(n)]
    return hs if rng.random() < 0.5 else [hs[0]] * n


def others(rng):
    """programs of the other checks"""
    n = rng.choice([2, 3, 4])
    hs = []
    for _ in range(n):
        ops = []
        for e in range(rng.randint(1, 3)):
            flags, codes, inp = battery.foreign(rng)
            ops += [("n", str(e), "l", inp, "")] + [("e", str(e), fl, "", x) for fl, x in zip(flags, codes)] + [("d", str(e), "", "", "")]
        hs.append(ops)
    return hs if rng.random() < 0.5 else [hs[0]] * n


def timeless(x):
    return {k: re.sub(r"\d{4}-\d\d-\d\d[ T]\d\d:\d\d:\d\d|compiled with \S+ v[0-9.]+", "#", v) for k, v in x.items() if k != "n"}


def go():
    c = Check("P21", rule="two to eight threads, each with its own environments, run independent histories (creation, evaluation, failure, import, documentation, guarded evaluation, main program, debugger, dropping) at the same time and repeatedly; oracle: the race detector, and equality of all results with those of the same history run alone in another process with another build")
    items = []
    rng = c.rng("threads")
    for i in range(c.n(70, 1200)):
        n = rng.choice([2, 2, 3, 4, 8])
        parts = [part(rng) for _ in range(n)]
        if rng.random() < 0.5:      # all the same: they meet in the same places
            parts = [parts[0]] * n
        items.append(parts)
    more = sweep(c.rng("sweep"), c.n(3, 30))
    rng = c.rng("others")
    more += [others(rng) for _ in range(c.n(40, 600))]
    more += [debugged(rng) for _ in range(c.n(20, 300))]
    random.Random(c.label("order")).shuffle(more)
    items = more + items
    reps = 2
    for variant, items_v in (("tsan", items), ("asan", items[:max(10, len(items) // 3)])):
        reqs = [runner.Req("threads", str(reps), str(len(ps)), *[f for t, ops in enumerate(ps) for op in ops for f in (str(t),) + op]) for ps in items_v]
        res = c.run(reqs, variant, files=p20.FILES, batch=4, jobs=4, hang_s=120)
        singles = [p20.req(ops) for ps in items_v for ops in ps]
        alone = iter(c.run(singles, "plain", files=p20.FILES, batch=20))
        for ps, q, r in zip(items_v, reqs, res):
            al = [next(alone) for _ in ps]
            if r is not None and r.rec is None and r.stderr and "ThreadSanitizer" in r.stderr:
                s = runner.crash_summary(r)
                loc = re.search(r"Location is ([^\n]*)", r.stderr)
                c.violation("race:" + chk.key_of(Case([re.sub(r"0x\w+|\(.*|\d+", "", s) + (re.sub(r"0x\w+|\(.*|\d+", "", loc.group(1)) if loc else "")])), s + (" | " + loc.group(1) if loc else ""), {"operations": ps, "stderr": r.stderr[:8000]})
                continue
            if c.crash(r, {"operations": ps}):
                continue
            for t, (ops, a) in enumerate(zip(ps, al)):
                if c.crash(a, {"operations": ops}):
                    continue
                exp = [timeless(x) for x in a.r]
                c.saw((json.dumps(ops), variant, len(ps), t), {"threads": len(ps), "operations": ops[:6]})
                for rep in range(reps):
                    got = [timeless(x) for x in r.rec["t"][t][rep]]
                    c.stat("evaluations in threads", len(got))
                    for op, g, e in zip([o for o in ops if o[0] not in "nd"], got, exp):
                        if "tickcount" in op[4] or "(date-time" in op[4]:
                            continue
                        if chk.nn(json.dumps(g)) != chk.nn(json.dumps(e)):
                            d = [f for f in sorted(set(g) | set(e)) if g.get(f) != e.get(f)]
                            c.violation("thread:" + chk.key_of(Case([json.dumps(op)])), "thread %d of %d, repetition %d, %s: %s differs: alone %s, in parallel %s" % (t, len(ps), rep, chk.clip(str(op)), d, chk.clip(str([e.get(f) for f in d])), chk.clip(str([g.get(f) for f in d]))), {"operations": ps, "thread": t})
                            break
                    if len(got) != len(exp):
                        c.violation("count:" + chk.key_of(Case([json.dumps(ops)])), "thread %d: %d results alone, %d in parallel" % (t, len(exp), len(got)), {"operations": ps})
        c.stat("runs under " + variant, len(items_v))
    c.finish()


if __name__ == "__main__":
    main(go)
