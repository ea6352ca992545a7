import sys, os, re, tempfile, shutil, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import build, chk, wl, gen, runner
from concurrent.futures import ThreadPoolExecutor

FILES = {"m.fuel": "(def a 1) (def b (list a 2)) (setf a 5)", "bad.fuel": "(def a 1)\n(no-fn a)", "broken.fuel": "(def a (list 1 2)", "lib.fuel": "(defn libf (x) (do (def k (list x x)) (first k))) (defn libfail (x) (do (def k (list x x)) (no-fn k))) (define-macro-eval libm (x) (list x x))"}
PRE = ("(import \"lib.fuel\") (def l (list 1 2 3)) (def v 1) (def s \"some text which is longer than the small one\") (def d (make-dict)) (defn f (x) (+ x 1)) (defn g (x y) (do (def loc (list x y)) (def s2 (string s loc)) (list loc s2))) (define-macro-eval m (a) (+ a 1))"
       " (define-macro-eval mm (a b) (do (def t1 (list a b)) (first t1))) (define-macro-expand e (a) '(+ a 1)) (define-macro-expand e2 (a) (list 'list 'a (list 'quote 'a))) (defn fails (x) (do (def loc (list x x)) (no-fn loc))) (defn mk (n) (lambda () (setf n (+ n 1)))) (defn rec (n) (if (> n 0) (rec (- n 1)) (rval 0))) (defn recfail (n) (if (> n 0) (recfail (- n 1)) (no-fn)))"
       " (defn early (x) (do (def loc (list x)) (while #t (do (if (> x 1) (return loc)) (setf x (+ x 1)))) (rval 5)))")
FORMS = ["(+ 1 2)", "(f 1)", "(g 1 2)", "(map f l)", "(map (lambda (q) (list q l)) l)", "(reduce + l 0)", "(reduce (lambda (q r) (list q r)) l 0)", "(m 2)", "(m (m v))", "(mm v (list 1))", "(e 2)", "(e (e v))", "(e2 (f 1))", "(fails 2)", "(mk 1)", "(def c (mk 1)) (c) (c)", "(def q (list 1 2)) (setf (first q) 3)", "(setf (nth 1 l) (list 4 5))", "(setf v (list v))(setf v 1)",
         "(evalstr \"(+ 1 2)\")", "(evalstr \"(def ev (list 1 2))\")", "(evalstr \"(no-fn)\")", "(evalstr \"(\")", "(eval '(+ 1 2))", "(eval (list '+ 1 v))", "(eval '(fails 1))", "(import \"m.fuel\")", "(import \"bad.fuel\")", "(import \"broken.fuel\")", "(import \"missing.fuel\")", "(libf 3)", "(libfail 3)", "(libm 3)", "(defn redefined (x) (do (def z 1) (return z))) (redefined 1)", "(def anon (lambda (x) (list x v))) (anon 5)",
         "(while #t (fails 1))", "(do (def i 0) (while (< i 5) (do (setf i (+ i 1)) (list i))))", "`(1 ,@l ,(f 1) (a ,v))", "(", ")", "\"open", "'", "(do (def dd (make-dict)) (dict-set dd 1 (list 2)) (dict-set dd \"k\" s) (dict-remove dd 1))", "(dict-set d \"key\" (list 1 2))", "(dict-get d 5)", "(dict-set d (list 1) s) (dict-clear d)", "(dict-keys d)", "(define-macro-eval m (a) (+ a 1))", "(define-macro-expand e (a) '(+ a 1))", "(define-macro-eval tmp (a) (list a a)) (tmp 1)",
         "(println 1 l d)", "(print s)", "(format \"{0} {1,20}\" s l)", "(trace 5)", "(doc 'first)", "(vars)", "(searchdoc \"fir\")", "(htmldoc)", "(setf (nth 9 l) 1)", "(setf (nth (fails 1) l) 1)", "(apply f (list 1))", "(apply (lambda (x) (/ x 0)) (list 1))", "(gettrace)", "(rec 30)", "(recfail 30)", "(early 0)", "(list (early 5) (early 0))", "(slice s 2 5)", "(replace s \"t\" \"uu\")", "(string s s)", "(upper-case s)",
         "(append l l)", "(reverse l)", "(cons 1 l)", "(rest l)", "(push 5 l) (pop l)", "(push 5 l 1) (pop l 1)", "(nth 7 l)", "(first '())", "(sym \"dyn\")", "(str l)", "(float \"2.5\")", "(== l '(1 2 3))", "(search \"o\" s)", "(trim s)", "(delvar 'zzz)", "(def zzz s) (delvar 'zzz)", "(gdef glo (list v l))", "(File-WriteAllText \"o.txt\" s) (File-ReadAllText \"o.txt\")", "(readline)", "(if v 1 2)", "(and #t (fails 1))", "(quote (a b (c)))", "(args)", "(typestr l)", "(return 5)", "(defn a1 (x) x) (a1)",
         "(do (defn t1 (x . y) (list x y)) (t1 1 2 3))", "(apply g l)", "(f)", "(len 5)", "(map 5 l)", "(list (lambda (x) x) f first)", "(libf (libf (fails 1)))", "(nop)", "(do 5)", "(fn (x))", "(let", "((1 2) 3)", "(undefined-symbol)", "(list undefined-symbol)", "(parse-int \"12x\")", "(split s \" \")", "(Math-Sqrt 2)"]


class H(gen.G):
    """no functions stored in the variables of the call which creates them"""
    def x_fn1(self, d):
        return gen.G.x_fn1(self, d) if not self.in_fn else self.ch("-", "~")

    def lit(self, t):
        return self.ch("-", "~") if t == "fn1" and self.in_fn else gen.G.lit(self, t)


REPS, WARM = 22, 8


def make(rng, i):
    k = i % 3
    if k == 0:
        code = H(rng, faults=rng.choice([0, 0.02, 0.06]), depth=3).program(rng.randint(2, 6))
    else:
        code = "\n".join(rng.choice(FORMS) for _ in range(rng.choice([1, 1, 2, 3, 5])))
        if rng.random() < 0.25:
            code = rng.choice(["(list (f 1) %s)", "(do (defn w (p) (do %s (rval p))) (w 1))", "(map (lambda (p) (do %s (rval p))) l)", "(evalstr %r)", "(do (def i9 0) (while (< i9 4) (do (setf i9 (+ i9 1)) %s)))", "(println (apply (lambda () (do %s (rval 1))) (list)))", "(setf v (do %s (rval 1)))", "(mm (do %s (rval 1)) 2)"])
            code = code.replace("%s", "\n".join(x for x in [rng.choice(FORMS) for _ in range(2)] if "defn" not in x and "lambda" not in x and x not in ("(", ")", "'", "\"open", "(let"))).replace("%r", wl.lit(rng.choice(FORMS)))
    return Case([PRE] + [code] * REPS, files=FILES, flags="h" + rng.choice(["", "", "t"]), inp="a\nb\n" if rng.random() < 0.5 else "")


# the text of every repetition is another one: § stands for a number with six digits
DISTINCT = ["(rval \"text §\")", "(rval §)", "(rval 1.§)", "(quote sym§)", "'(a§ (b§ \"§\") §)", "(evalstr \"(+ 1 §)\")", "(evalstr \"(list 'x§ v)\")", "(evalstr \"(no-fn§)\")", "(evalstr \"(def ev §)\")", "(eval '(list §))", "(eval (list '+ 1 §))",
            "(no-fn§ 1)", "(fails §)", "(unknown§)", "(rval unknown§)", "(setf unknown§ 1)", "(delvar 'unknown§)", "(first §)", "(nth § l)", "(nth § \"abc\")", "(format \"{0} §\" 1)", "(format \"{1} §\" 1)", "(string \"a\" § \"b\")", "(str §)", "(str (list 'a§))",
            "(parse-integer \"§\")", "(parse-float \"1.§\")", "(int \"§\")", "(float §)", "(sym \"s§\")", "(symbol \"s§\")", "(search \"§\" s)", "(replace s \"o\" \"§\")", "(upper-case \"x§\")", "(slice \"ab§\" 1 3)", "(searchdoc \"fi§\")", "(searchdoc \"§\")", "(doc 'nofn§)", "(doc '§)",
            "(import \"nofile§\")", "(File-Exists \"no§\")", "(File-ReadAllText \"no§\")", "(dict-get d §)", "(dict-contains-key d \"k§\")", "(dict-remove d 'r§)", "(do (dict-set d §  1) (dict-remove d §))", "(do (def dd (make-dict)) (dict-set dd \"k§\" '(§)) (dict-set dd § 1))",
            "(do (def arr (list § '§ \"§\")) (push § arr) (setf (nth 0 arr) \"§\"))", "(do (defn t1 (p§) (do (def q§ (list p§)) (first q§))) (t1 §))", "((lambda (p§) p§) 1)", "(map (lambda (p§) (list p§ §)) l)", "(do (defn t1 () (do (def q§ 1) (delvar 'q§))) (t1))",
            "(do (define-macro-eval t2 (p§) (list p§ §)) (t2 §))", "(do (define-macro-expand t3 (p§) '(list p§ §)) (t3 1))", "(e §)", "(m §)", "(mm § \"§\")", "`(a ,§ ,@(list § 's§))", "(println \"§\" §)", "(println 'a§)", "; comment §\n(def commented §)", "; comment §\n(defn t1 (a) (rval §))\n(doc 't1)",
            "(if (== § §) \"§\")", "(< \"§\" \"9§\")", "(+ § §.5 1)", "(/ § 0)", "(apply 'fn§ '(1))", "(apply f '(§))", "(\"t§\" 1)", "(f §", "(f §))", "\"§", "(trace §)", "(argscount §)", "(do (def once§ 1) (delvar 'once§))", "(return §)", "(f 1 2 § 'a§)", "(do (defn t1 () (args)) (t1 § 'b§ \"§\"))",
            "(first 1 § 2)", "(len 's§)", "(typestr 's§)", "(reverse \"§\")", "(reduce (lambda (p§ r§) (list r§)) l §)", "(Math-Sqrt §)", "(Math-Sqrt \"§\")", "(evalstr \"(defn t1 (z§) (list z§)) (t1 §)\")", "(evalstr \"(evalstr \\\"(+ § 1)\\\")\")", "(eval '(e §))", "(evalstr \"(m §)\")"]


def distinct(rng, i):
    code = DISTINCT[i] if i < len(DISTINCT) else " ".join(rng.sample([x for x in DISTINCT if x not in ("(f §", "(f §))", "\"§")], rng.randint(2, 4)))
    if rng.random() < 0.3 and i >= len(DISTINCT) and "defn" not in code:
        # (functions stored in variables of the creating call are excluded)
        code = rng.choice(["(list %s)", "(do (defn w (p) (do %s (rval p))) (w 1))", "(map (lambda (p) (do %s (rval p))) l)", "(do (def i9 0) (while (< i9 2) (do (setf i9 (+ i9 1)) %s)))"]) % code
    first = rng.choice([100000, 200000, 543210])
    # each text is evaluated after another one of its own length
    return Case([PRE] + [code.replace("§", str(first + 7 * j)) for j in range(REPS * 2)], files=FILES, flags="h" + rng.choice(["", "", "t", "m"]), inp="", note="distinct")


def inner(rng, i):
    """the heap in the middle of one evaluation, at a call on line 77"""
    x = rng.choice([y for y in FORMS if "fail" not in y and y not in ("(", ")", "'", "\"open", "(let") and not re.search(r"defn|def anon|def c |print|vars|mk 1|libfail|recfail", y)])
    how = rng.randint(0, 3)
    loop = "(do (def i9 0) (while (< i9 %d) (do (setf i9 (+ i9 1)) %s\n(nop)\n)))"
    if how == 1:
        loop = "(do (defn w (i9) (while (< i9 %d) (do (setf i9 (+ i9 1)) %s\n(nop)\n))) (w 0))"
    if how == 2:
        loop = "(do (def i9 0) (reduce (lambda (i9 r9) (do (rval %d) %s\n(nop)\n)) '(" + "1 " * REPS + ") 0))"
    if how == 3:
        loop = "(do (def i9 0) (defn w () (do (rval 1) %s)) (while (< i9 %d) (do (setf i9 (+ i9 1)) (w)\n(nop)\n)))"
        t = loop.replace("%d", str(REPS)).replace("%s", x)
    else:
        t = loop % (REPS, x)
    j = t.rindex("\n(nop)")
    t = t[:j] + "\n" * max(0, 76 - 1 - t[:j].count("\n")) + t[j:]
    return Case([PRE, t], files=FILES, flags="hm", note="inner")


def grows(h):
    """mean growth per repetition after warming up, if it goes on"""
    h = h[WARM:]
    if len(h) < 4:
        return 0
    g = (h[-1] - h[0]) / (len(h) - 1)
    mid = len(h) // 2
    return g if g >= 4 and h[mid] - h[0] >= 2 * mid and h[-1] - h[mid] >= 2 * (len(h) - mid - 1) else 0


# programs for the real program: what is printed, read or evaluated must not be kept
LONG = ["(print s)", "(println s i)", "(println (list s i))", "(print s \"x\") (flush)", "(rval (readline))", "(println (readline))", "(print (evalstr \"(string s 1)\"))", "(print (format \"{0} {1,30}\" s i))", "(rval (File-ReadAllText \"big.txt\"))", "(File-WriteAllText \"o.txt\" s)", "(rval (string s s))",
        "(rval (list s s))", "(rval (map (lambda (x) (string s x)) '(1 2 3)))", "(rval (reduce (lambda (x r) (string x r)) (list s s) \"\"))", "(setf t (string s i))", "(setf (nth 1 l) (string s i))", "(dict-set d 1 (string s i))", "(do (dict-set d i s) (dict-remove d i))", "(f s)", "(print (f s))", "(m s)", "(print (m s))", "(rval (eval (list 'string s s)))", "(rval (apply string (list s s)))",
        "(rval (replace s \"0\" \"11\"))", "(rval (upper-case s))", "(rval (slice s 1 3000))", "(print (str (list s)))", "(push s l) (pop l)", "(rval (cons s l))", "(rval (append l (list s)))", "(rval `(1 ,s (2 ,s)))", "(evalstr (string \"(rval \\\"\" s \"\\\")\"))", "(import \"big.fuel\")", "(print (typestr s)) (println)", "(rval (sym s))", "(rval (== s t))", "(rval (search \"zz\" s))", "(print (doc 'first))", "(searchdoc \"list\")", "(delvar 'x9) (def x9 s)", "(rval (trim (string \" \" s \" \")))", "(print ((lambda (x) x) s))", "(trace #f) (print s)"]


def peak(exe, args, stdin, files, env):
    """peak of the resident memory in KB of one run of the program, as the unprivileged user"""
    with runner.Sandbox(files) as box:
        inp = os.path.join(box.dir, "input")
        with open(inp, "wb") as fh:
            fh.write(stdin)

        def pre():
            runner._limits()
            runner._demote()
        with open(inp, "rb") as fi:
            p = subprocess.run([os.path.join(os.path.dirname(exe), "peak"), exe] + args, stdin=fi, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd=box.work, env=env, preexec_fn=pre, timeout=300)
        m = re.search(r"PEAK (-?\d+) (\d+)\n$", p.stderr.decode("latin-1"))
        return int(m.group(1)), int(m.group(2)), p.stderr.decode("latin-1")


def program(c):
    """the peak memory of a long run is the one of a short run"""
    exe = build.build_cli("plain")
    holder = tempfile.mkdtemp(prefix="fuelm-", dir="/tmp")
    os.chmod(holder, 0o755)
    try:
        local = os.path.join(holder, "fuel")
        shutil.copy(exe, local)
        os.chmod(local, 0o755)
        build._run(["gcc", "-O1", os.path.join(build.VERIF, "harness/peak.c"), "-o", os.path.join(holder, "peak")])
        env = runner.base_env()
        rng = c.rng("program")
        forms = LONG + [" ".join(rng.sample(LONG, 2)) for _ in range(c.n(8))]
        head = ("(do (def s \"0123456789abcdef\") (def t \"\") (def x9 1) (def l (list 1 2 3)) (def d (make-dict)) (defn f (x) (string x \"!\")) (define-macro-eval m (x) (string x \"?\")) (def i 0)\n"
                "(while (< i 8) (do (setf s (+ s s)) (setf i (+ i 1))))\n(setf i 0)\n(while (< i %d) (do %s\n(setf i (+ i 1)))))\n")
        few, many = 100, 2100
        files = {"big.txt": "x" * 8192, "big.fuel": "(def big \"" + "y" * 8192 + "\")"}

        def one(job):
            form, n = job
            stdin = (b"z" * 8191 + b"\n") * n if "readline" in form else b""
            return peak(local, ["main.fuel"], stdin, dict(files, **{"main.fuel": head % (n, form)}), env)
        jobs = [(f, n) for f in forms for n in (few, many)]
        with ThreadPoolExecutor(max_workers=8) as ex:
            got = list(ex.map(one, jobs))
        for f, a, b in zip(forms, got[::2], got[1::2]):
            for rc, kb, err in (a, b):
                if rc != 0:
                    c.violation("program:" + f, "%s: exit %s\n%s" % (f, rc, chk.clip(err, 3000)), {"program": head % (many, f)})
                    break
            else:
                c.saw(f)
                c.stat("long runs of the program")
                c.stats["largest difference of the peaks in KB"] = max(c.stats.get("largest difference of the peaks in KB", 0), b[1] - a[1])
                # one text of 4 KB kept per repetition would be 8 MB
                if b[1] - a[1] > 4000:
                    c.violation("program:" + f, "%s\n   repeated %d times needs %d KB, %d times %d KB" % (f, few, a[1], many, b[1]), {"program": head % (many, f), "few": [few, a[1]], "many": [many, b[1]]})
    finally:
        shutil.rmtree(holder, ignore_errors=True)


def go():
    c = Check("P28", rule="programs, calls, failures, imports, macro uses, redefinitions and traversals of all kinds repeated in one environment, and repeated within loops and callbacks of one evaluation: the exact number of allocated bytes (counted by the sanitizer's allocator) after each repetition must stay the same after a few repetitions; the peak memory of the real program for loops which print, read, evaluate and build large texts must not depend on the number of repetitions")
    cs = generate(make, c.n(1500), c.label("reps"), predict=False) + generate(inner, c.n(400), c.label("inner"), predict=False) + generate(distinct, c.n(300), c.label("distinct"), predict=False)
    res = c.run([x.req() for x in cs], files=chk.files_of(cs))
    again = []
    for x, r in zip(cs, res):
        if c.crash(r, x.show()):
            continue
        if x.note == "inner":
            h = r.r[1].get("hp", [])
            if len(h) < WARM + 6:
                c.stat("not looping")
                continue
        else:
            h = [y["heap"] for y in r.r[1:]]
        c.saw(x.codes[1])
        c.stat("heap sizes observed", len(h))
        if len({tuple(h[WARM:])}) == 1 and len(set(h[WARM:])) == 1:
            c.stat("constant")
        if grows(h):
            again.append(x)
    # growth must go on for many repetitions
    for x in again:
        if x.note == "distinct":
            w = x.codes[1]
            import collections
            num = collections.Counter(re.findall(r"\d{6}", w)).most_common(1)[0][0]
            x.codes = x.codes[:1] + [w.replace(num, str(int(num) + 7 * j)) for j in range(REPS * 6)]
        elif x.note != "inner":
            x.codes = x.codes[:1] + x.codes[1:2] * (REPS * 6)
        else:
            x.codes[1] = x.codes[1].replace("< i9 %d" % REPS, "< i9 %d" % (REPS * 6)).replace("1 " * REPS, "1 " * (REPS * 6))
    for x, r in zip(again, c.run([x.req() for x in again], files=chk.files_of(again))):
        if c.crash(r, x.show()):
            continue
        h = r.r[1].get("hp", []) if x.note == "inner" else [y["heap"] for y in r.r[1:]]
        g = grows(h)
        if g:
            c.violation("grows:" + chk.key_of(x), "each repetition of\n%s\n   keeps about %d bytes (%d after %d repetitions, %d after %d)" % (chk.clip(x.codes[1], 2000), g, h[WARM], WARM, h[-1], len(h)), {"case": {"codes": x.codes[:2], "repetitions": len(h), "files": x.files}, "heap": h})
    program(c)
    c.finish()


if __name__ == "__main__":
    main(go)
