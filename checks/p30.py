import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, gen, runner, big
import p03


def frames(text):
    """(number, name, line, module) of the reported call stack"""
    return [(int(a), b.rstrip(" "), int(c), d) for a, b, c, d in re.findall(r"^ *(\d+) name=(.*?) +lineno=(-?\d+) +module=(.*?)\n(?= +\d+ name=|\Z)", text, re.M | re.S)]


FAULTS = ["(no-fn-%d 1)", "(/ %d 0)", "(nth 99 (list %d))", "(first (list))", "(setf nix-%d 1)", "(if %d 1 2)", "(evalstr \"(/ %d 0)\")", "(eval '(nope-%d))", "(map (lambda (q) (/ q 0)) (list %d))", "(reduce (lambda (q r) (no-fn)) (list %d) 0)", "(apply (lambda () (/ 1 0)) (list))", "(import \"fail.fuel\")", "(trace %d)", "(return)", "(lib-fail %d)", "(len %d)"]
FILES = {"fail.fuel": "(def here 1)\n(defn ff (x)\n  (do (println \"ff\")\n (/ x 0)))\n\n(ff 3)\n", "lib.fuel": "(defn lib-ok (f)\n (do (rval 1) (f 1)))\n\n(defn lib-ok3 (f a b)\n (do (f (list\n a\n b)\n (rval\n 2)\n (rval 3))))\n\n(defn lib-fail (x)\n (no-such x))\n"}


def chain(rng, i):
    """functions which log their beginning and end; the ones begun and not ended are the active ones"""
    n = rng.randint(2, 7)
    out = []
    for k in range(n):
        calls = []
        for _ in range(rng.randint(0, 3)):
            if k:
                j = rng.randrange(k)
                calls.append(rng.choice(["(f%d x)", "(println (f%d 1))", "(map f%d (list 1 2))", "(apply f%d (list 3))", "(if #t (f%d 2) 1)", "(do (f%d 1) (f%d 2))", "(evalstr \"(f%d 5)\")", "(eval '(f%d 6))", "(map (lambda (z) (f%d z)) (list 1))", "(lib-ok f%d)", "(reduce (lambda (z w) (f%d z)) (list 1) 2)", "(def h (lambda (z) (f%d z))) (h 1)", "(m (f%d 1))", "(return (f%d 4))", "(f%d (id\n x)\n (id\n 2))", "(f%d (id\n x)\n (id 1)\n (id\n 2))", "(f%d (id 1)\n (id\n x)\n (id 1) (list\n 2))", "(println (id\n 1)\n (f%d\n 1)\n (id\n 2))", "(lib-ok3 f%d\n (id\n 1)\n (id\n 2))"]).replace("%d", str(j)))
        if rng.random() < 0.4:
            calls.insert(rng.randint(0, len(calls)), "(if (== boom %d) %s)" % (k, rng.choice(FAULTS).replace("%d", str(k))))
        if rng.random() < 0.2:
            calls.append("(if (< depth %d) (do (setf depth (+ depth 1)) (f%d x)))" % (rng.randint(1, 6), k))
        sp = lambda: rng.choice([" ", "\n", "\n ", " ; c\n", "  "])
        out.append("(defn f%d (x)%s(do (println \"> f%d\")%s%s%s(println \"< f%d\")%s(rval x)))" % (k, sp(), k, sp(), "".join(c + sp() for c in calls), sp(), k, sp()))
    codes = ["(import \"lib.fuel\") (def depth 0) (define-macro-eval m (e) (do (rval 1) e)) (defn id (v) (rval v)) (def boom -1)\n" + "\n".join(out)]
    for _ in range(rng.randint(2, 5)):
        codes.append("(setf depth 0) (setf boom %d)" % rng.randrange(n))
        codes.append(rng.choice(["", "\n", "(println 1)\n\n"]) + rng.choice(["(f%d 1)", "(do (f%d 2)\n (f%d 3))", "(println\n (f%d 4))", "(map f%d (list 1))", "(f%d (f%d 1))"]).replace("%d", str(rng.randrange(n))))
    return Case(codes, files=FILES, flags=rng.choice(["", "", "m", "t"]))


def deep(rng, i):
    n = rng.choice([1, 2, 5, 17, 60, 150])
    x = rng.choice(["(defn r (n)\n (if (> n 0)\n  (r (- n 1))\n  (no-fn)))", "(defn r (n) (do (if (== n 0) (/ 1 0))\n (r (- n 1))))", "(defn r (n) (if (> n 0) (s (- n 1)) (nth 5 (list))))\n(defn s (n)\n (if (> n 0) (r (- n 1))\n (first (list))))",
                    "(defn r (n) (if (> n 0) (apply (lambda (k) (r k)) (list (- n 1))) (no-fn)))", "(defn r (n) (if (> n 0) (+ 1 (r (- n 1))) (evalstr \"(no-fn)\")))"])
    return Case([x, "(r %d)" % n, "(r %d)" % rng.randint(0, 3), "(+ 1 1)", "\n(do (println 1)\n(r 1))"])


def go():
    c = Check("P30", rule="failures at random places of random call trees (functions, anonymous functions, callbacks, modules, recursion, evaluated text, macros, traced and observed runs), after calls which returned, returned early or failed: the reported call stack is compared frame by frame (name, line, module) with the model, and its names with the functions which, according to the program's own log, had begun and not ended")
    c.t = [0, 0, 0]

    def per_case(case, r):
        if "m" in case.flags:
            firsts = {x["ev"][0].split(":")[3] for x in r.r if x.get("ev")}
            if len(firsts) > 1:
                c.violation("depth:" + chk.key_of(case), "evaluations of one environment begin at different depths %s" % sorted(firsts), {"case": case.show(), "observed": r.r})
        for j, (p, o) in enumerate(zip(case.ref, r.r)):
            if o["k"] != "lisp" or p["k"] != "err" or not p.get("stack"):
                continue
            got = frames(o["stack"])
            c.t[0] += 1
            c.t[1] += len(got)
            want = [(a, b if b is not None else None, m) for a, b, m in p["stack"]]
            bad = None
            if [g[0] for g in got] != list(range(1, len(got) + 1)):
                bad = "frames are numbered %s" % [g[0] for g in got]
            elif len(got) != len(want):
                bad = "%d frames, expected %d" % (len(got), len(want))
            else:
                for g, w in zip(got, want):
                    if g[1] != w[0] or w[1] is not None and g[2] != w[1] or g[3] != w[2]:
                        bad = "frame %d is %s line %d of %s, expected %s line %s of %s" % (g[0], g[1], g[2], g[3], w[0], w[1], w[2])
                        break
            if not bad and case.note == "chain" and j:
                act = []
                for k in re.findall(r"^(> f\d+|< f\d+)", o["o"], re.M):
                    if k[0] == ">":
                        act.append(k[2:])
                    elif act and act[-1] == k[2:]:
                        act.pop()
                    else:
                        act = None
                        break
                if act is not None:
                    c.t[2] += 1
                    names = [g[1] for g in got if re.match(r"f\d+\Z", g[1])]
                    if names != act:
                        bad = "functions begun and not ended: %s, reported %s" % (act, names)
            if bad:
                c.violation("stack:" + chk.key_of(case), "evaluation %d: %s\n%s\n%s" % (j + 1, bad, o["stack"], chk.clip("\n".join(case.codes[:j + 1]), 3000)), {"case": case.show(), "predicted": p, "observed": o})
                return
    cs = generate(chain, c.n(1500), c.label("chain"))
    for x in cs:
        # early returns do not log their end
        x.note = "chain" if "(return (f" not in x.codes[0] else None
    c.compare(cs, kind="chain", per_case=per_case)
    c.compare(generate(p03.make, c.n(1200), c.label("place")), kind="place", per_case=per_case)
    c.compare(generate(deep, c.n(150), c.label("deep")), kind="deep", per_case=per_case)
    c.compare(generate(lambda rng, i: Case([gen.G(rng, faults=0.05, depth=3).program(rng.randint(3, 7)) for _ in range(2)]), c.n(500), c.label("gen"), jobs=None), kind="gen", per_case=per_case)
    c.stats.update({"stacks compared": c.t[0], "frames compared": c.t[1], "stacks compared with the log": c.t[2]})
    c.compare(generate(big.deep_calls, c.n(150), c.label("big deep_calls")), kind="big", per_case=per_case)
    c.compare(generate(big.modules, c.n(60), c.label("big modules")), kind="big", per_case=per_case)
    c.compare(generate(big.lines, c.n(80), c.label("big lines")), kind="big", per_case=per_case)
    c.finish()


if __name__ == "__main__":
    main(go)
