import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, gen, runner, build
import refinterp as R
import p30

OPTS = ["-m", "-v", "-h", "--doc", "--html", "--macro-expand", "-x", "-t", "-e", "-l=", "-i", "-d"]
MACROS = "(define-macro-expand ex (a b) '(+ a b)) (define-macro-eval ee (a) (list a 1))\n"
FIXED = ["(println 1)", "(+ 1 2)", "", " ", "; only a comment", "(println \"a\" 2)\n(list 1 2)", "(def x 5) (println x)", "(println x)", "(readline)", "(println (readline))", "(list (readline) (readline))", "(no-fn 1)", "(println 1)\n(first 5)\n(println 2)", "(println 1", "(println 1))", "\"abc", "5", "nil", "(nil)", "(do)", "(def f 1) (defn f (x)\n (first x))\n(f\n 7)",
         "(setf v 1)", "(import \"mm\") (println q)", "(import \"mm.fuel\")", "(import \"libfn\") (println (libq 3))", "(import \"none\")", "(gdef g 7) (println g)", "(println g)", "(File-WriteAllText \"out.txt\" \"text\")", "(println (File-ReadAllText \"out.txt\"))", "(File-Exists \"out.txt\")", "(return 5) (println 6)", "(do (return 4) (println 6))", MACROS + "(println (ex 1 2) (ee (ex 3 4)))", MACROS + "(ex (ex 1 2) 3)", "(ex 1 2)", "(string \"a\nb\" 1.5)", "(print \"no newline\")", "(trace 1)", "(evalstr \"(println 3)\")", "'(a b)", "(lambda (x) x)", "(make-dict)", "(list)", "(quote ())", "(first '())", "(println \"\xe4\xfc\")", "(println 'sym)", "(evalstr \"(no-fn)\")", "(/ 1 0)", "(while #f 1)"]
LIB = {"mm.fuel": "(println \"cwd mm\")\n(def q 1)", "lp/mm.fuel": "(println \"lp mm\")\n(def q 2)", "Library/mm.fuel": "(println \"library mm\")\n(def q 3)", "lp/libfn.fuel": "(defn libq (x) (* x 2))", "lp2/libfn.fuel": "(defn libq (x)\n (no-fn x))"}


def script(rng):
    k = rng.randint(0, 5)
    if k < 4:
        return rng.choice(FIXED)
    return gen.G(rng, faults=rng.choice([0, 0.05]), depth=2).program(rng.randint(1, 4))


def long_arglist(rng, i):
    """many scripts, long scripts, expressions and names"""
    pre = "c%d/" % i
    files = {pre + "keep": ""}
    opts = [o for o in ["-m", "-x", "-t", "--macro-expand", "-l=lp"] if rng.random() < 0.25]
    n = int(3 * 30 ** rng.random())
    k = rng.randint(0, 3)
    if k == 0:
        m = 40 * n
        e = rng.choice(["(println %d) " % n * n, "(println \"%s\")" % ("y" * m), "(+ %s)" % " ".join(["1"] * m), "; %s\n(println 1)" % ("c" * m), "\n" * m + "(no-fn 1)", "(def %s 1) (println %s)" % (("n" * m,) * 2)])
        return ["-e", e] + opts, "", files
    names = []
    for j in range(n if k < 3 else 2):
        nm = pre + ("s%d.fuel" % j if k < 3 else "s" * min(n * 2, 200) + "%d.fuel" % j)
        files[nm] = rng.choice(["(println %d)" % j, "(def x%d %d)" % (j, j), "(println \"%d\" (readline))" % j, "\n(no-fn %d)" % j, script(rng).replace("out.txt", pre + "out.txt")]) if k < 2 else "".join("(println %d \"%s\")\n" % (q, "z" * (q % 90)) for q in range(n * rng.randint(1, 12))) + rng.choice(["", "(no-fn 1)", "\"open"])
        names.append(nm)
    args = names + opts
    if rng.random() < 0.3:
        rng.shuffle(args)
    return args, "\n".join("in%d" % j for j in range(n)) if rng.random() < 0.5 else "", files


def arglist(rng, i):
    """(args, input, files): files are named after the case, as many share a directory"""
    if i % 25 == 7:
        return long_arglist(rng, i)
    pre = "c%d/" % i
    files = {}
    names = []
    for j in range(rng.choice([0, 1, 1, 1, 2, 3])):
        n = pre + rng.choice(["s%d.fuel" % j, "s%d.fuel" % j, "s%d" % j, "a b%d.fuel" % j])
        if rng.random() < 0.92:
            files[n] = script(rng).replace("out.txt", pre + "out.txt")
        names.append(n)
    if names and rng.random() < 0.15:
        names.append(rng.choice(names))
    files[pre + "keep"] = ""
    opts = []
    for o in ["-m", "--macro-expand", "-x", "-t"]:
        if rng.random() < 0.22:
            opts.append(o)
    r = rng.random()
    if r < 0.04:
        opts.append(rng.choice(["-v", "-h"]))
    elif r < 0.08:
        opts.append(rng.choice(["--doc", "--html"]))
    if rng.random() < 0.08:
        opts.append(rng.choice(["-i", "-d", "-i"]))
    if rng.random() < 0.25:
        opts.append("-l=" + rng.choice(["lp", "lp2", "lp/", "", "none", "./lp"]))
        if rng.random() < 0.1:
            opts.append("-l=" + rng.choice(["lp", "lp2"]))
    if rng.random() < 0.06:
        opts.append(rng.choice(["-q", "--unknown", "-", "--", "-l", "-E", "-T", "--macroexpand", "-tt", "-5", "-t", "-x", "-c", "-s", "-doc"]))
    rng.shuffle(opts)
    if rng.random() < 0.2:
        e = script(rng).replace("out.txt", pre + "out.txt")
        args = opts[:]
        p = rng.randint(0, len(args))
        args[p:p] = ["-e", e] if rng.random() < 0.95 else ["-e"]
        if rng.random() < 0.15:
            args += names
    else:
        args = opts[:]
        for n in names:
            args.insert(rng.randint(0, len(args)), n) if rng.random() < 0.5 else args.append(n)
    return args, rng.choice(["", "first\nsecond\n", "one\n", "exit\n", "l1\nl2\nl3\nl4\nl5"]), files


REP = r"(?>Exception in eval\(\)[^\n]*\n[^\n]*\n)"


def report(p, verbose):
    """pattern of the report of a predicted error"""
    # (what is unknown ends with the first possible match, so that matching takes linear time)
    m = r"(?>.*? --> line=)" if p["m"] is None else re.escape(p["m"]) + " --> line="
    if p["line"] is None:
        pos = r"[^\n]* start=[^\n]* stop=[^\n]* module=%s" % (re.escape(p["mod"]) if p["mod"] is not None else r"(?>.*?(?=\n\nCallstack:\n))")
    else:
        pos = r"%s start=-?\d+ stop=-?\d+ module=%s" % (p["line"], re.escape(p["mod"] or ""))
    return r"\nError executing script\.\n\n" + m + pos + r"\n\nCallstack:\n(?>not available\n| +1 name=<main> .*?\n\n)" + (REP if verbose else "")


def rx(s):
    return re.escape(s).replace("\\-nan", "nan").replace("nan", "-?nan")


class Text:
    def __init__(self):
        self.rx = ""

    def lit(self, s):
        self.rx += rx(s)

    def pat(self, s):
        self.rx += s


def predict(args, inp, files, fixed):
    """pattern of the whole output, remaining files; raises R.Unsupported"""
    t = Text()
    R._budget[0] = 400000
    if not args:
        t.lit(fixed["usage"])
        return t.rx, files
    rest = list(args)

    def take(o):
        if o in rest:
            rest.remove(o)
            return True
        return False
    scripts = [a for a in args if not a.startswith("-")]
    measure = take("-m")
    if take("-v"):
        t.pat(r"fuel v[\d.]+ from [\d.]+ compiled with [^\n]*\n")
        return t.rx, files
    if take("-h"):
        t.lit(fixed["usage"])
        return t.rx, files
    text, load, trace = None, True, False
    docs = html = False
    if take("--doc"):
        docs, load, trace = True, False, True
    if take("--html"):
        html, load, trace = True, False, True
        docs = False
    expand, verbose = take("--macro-expand"), take("-x")
    trace = take("-t") or trace
    if take("-e"):
        text, load = (scripts + [""])[0], False
        docs = html = False
    libs = [a for a in args if a.startswith("-l=")]
    if len(libs) > 1:
        t.lit("Error: only one library path is supported\n")
        return t.rx, files
    lib = ""
    if libs:
        lib = libs[0][3:]
        rest.remove(libs[0])
    inter, dbg = take("-i"), take("-d")
    for s in scripts:
        rest.remove(s)
    if rest:
        t.lit("Error: unknown option(s) " + "".join(x + " " for x in rest) + "\n")
        return t.rx, files
    files = dict(files)
    res = "<undefined>"
    used = 0

    def run(code, module, verb, tr):
        nonlocal used, files, res
        it = R.Interp(inp[used:], files, 200000, lib)
        p = it.eval(code, module, tr, expand)
        used += it.inpos
        t.lit(p["o"])
        if p["k"] == "ok":
            res = rx(p["s"] if p["v"] != "0" else "NIL")
        else:
            t.pat(report(p, verb))
            res = "Error: " + (".*?" if p["m"] is None else rx(p["m"]))
        return p
    if inter or dbg:
        if docs or html or trace or (inter and dbg) or inp not in ("exit\n", "") or expand:
            raise R.Unsupported("debugger dialogue")
        t.lit(fixed["header"])
        if dbg:
            if text is not None and text != "":
                mod, code = "command-line", text
            else:
                mod = (scripts + [""])[0]
                code = files.get(mod, "")
            try:
                R.parse(code)
            except R.FuelError:
                raise R.Unsupported("unreadable script in the debugger")
            if "ex " in code or not code.strip():
                raise R.Unsupported("script expanded before the debugger starts")
            t.lit("--> do line=1 start=-3 stop=-1 module=%s token=do\n" % mod)
        t.lit("FUEL(isp)-DBG> ")
        res = None
    elif load:
        for s in scripts:
            run(files.get(s, ""), s, verbose, trace)
    elif docs or html:
        if expand:
            raise R.Unsupported("expansion of the documentation call")
        t.lit(fixed["html_out"] if html else "")
        res = rx(fixed["html_val"] if html else fixed["doc_val"])
    elif text:
        run(text, "cmdline", False, False)
    if res is not None:
        if expand:
            t.pat("Macro\\ expand: " + res + "\n")
        if trace:
            t.pat("Result=" + res + "\n")
    if measure:
        t.pat(r"Execution time = \d+\.\d+ s\n")
    return t.rx, files


FIX = None


def make(rng, i):
    args, inp, files = arglist(rng, i)
    c = Case(args or [""], inp=inp, files=files)
    c.codes = args
    try:
        rx, after = predict(args, inp, dict(files, **LIB), FIX)
        c.ref = (rx, {k: v for k, v in after.items() if k.startswith("c%d/" % i)})
    except R.Unsupported as e:
        c.err = "unsupported: " + str(e)
    except R.OutOfSteps:
        c.err = "too many steps"
    except RecursionError:
        c.err = "deep"
    return c


def go():
    global FIX
    c = Check("P26", rule="generated argument lists (options in all orders and combinations, repeated and unknown options, none to four script files, missing, empty, unreadable, failing, writing and reading scripts, expressions, library paths, input) given to the main function and to the program itself in processes of their own; compared with a model of the options and the reference interpreter: the complete output as a pattern, exit status 0 and the files afterwards")
    u, d, h = c.run([runner.Req("main", "", "-h"), runner.ev("(doc)"), runner.ev("(htmldoc)")])
    usage = u.r[0]["o"]
    for o in OPTS:
        c.saw(o)
        if not re.search(r"^ *%s\b" % re.escape(o.rstrip("=")), usage, re.M):
            c.violation("usage:" + o, "the help does not show the option " + o, usage)
    FIX = {"usage": usage, "header": usage.split("FUEL(isp) is a fast")[0] + "Type \"help\" for informations.\n\n", "doc_val": d.r[0]["s"], "html_out": h.r[0]["o"], "html_val": h.r[0]["s"]}
    cases = generate(make, c.n(6500, 60000), c.label("args"), predict=False)
    for x in cases:
        if x.err:
            c.skipped[x.err] = c.skipped.get(x.err, 0) + 1
    todo = [x for x in cases if not x.err]
    if len(todo) < 0.7 * len(cases):
        raise runner.HarnessError("most cases are outside of the model: %s" % sorted(c.skipped.items(), key=lambda x: -x[1])[:5])

    def files(ids):
        out = dict(LIB)
        for i in ids:
            out.update(todo[i].files)
        return out

    def judge(x, out, where):
        c.saw((where, tuple(x.codes), x.inp), {"args": x.codes, "output": chk.clip(out)}, nontrivial=len(x.codes) > 0)
        c.stat("errors reported", x.ref[0].count("Error executing"))
        if not re.fullmatch(x.ref[0], out, re.S):
            c.violation("args:" + chk.key_of(x), "%s: the arguments %s gave the output\n%r\n   expected (pattern)\n%s\n   files %s" % (where, x.codes, chk.clip(out, 3000), chk.clip(x.ref[0], 3000), {k: v for k, v in x.files.items() if v}), {"args": x.codes, "input": x.inp, "files": x.files, "output": out, "expected": x.ref[0]})

    res = c.run([runner.Req("main", x.inp, *x.codes) for x in todo], files=files)
    for x, r in zip(todo, res):
        if c.crash(r, x.show()):
            continue
        o = r.r[0]
        if o["k"] != "ok":
            c.violation("raised:" + chk.key_of(x), "the main function raised %s for %s" % (chk.brief(o), x.codes), {"args": x.codes, "observed": o})
            continue
        judge(x, o["o"], "main function")

    # the program itself
    exe = build.build_cli()
    some = [x for x in todo if not any("\0" in a for a in x.codes)][:c.n(600, 5000)]
    got = runner.run_cli(exe, [(x.codes, x.inp.encode("latin-1"), dict(x.files, **LIB)) for x in some])
    for x, g in zip(some, got):
        if g["rc"] != 0 or g["err"]:
            c.violation("process:" + chk.key_of(x), "the program ended with status %s for %s: %s" % (g["rc"], x.codes, g["err"][:2000]), {"args": x.codes, "files": x.files, "stderr": g["err"]})
            continue
        c.stat("processes")
        left = {k: v for k, v in g["files"].items() if k not in LIB}
        if left != x.ref[1]:
            c.violation("files:" + chk.key_of(x), "after %s the files are %s, expected %s" % (x.codes, left, x.ref[1]), {"args": x.codes, "files": x.files})
        if not any(a in ("--doc", "--html") or re.search(r"vars|doc\b|help", a + x.files.get(a, "")) for a in x.codes):
            # (texts which are collected to be returned are shown on the console as well)
            judge(x, g["out"].replace("\nNative callstack:\n", ""), "program")
    c.finish()


if __name__ == "__main__":
    main(go)
