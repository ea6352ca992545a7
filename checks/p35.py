import sys, os, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, gen, runner
import big
import p03, p30

REPORT = re.compile(r"\nError executing script\.\n\n(.*) --> line=(-?\d+|<none>|) start=(-?\d+|<none>|) stop=(-?\d+|<none>|) module=(.*?)\n\nCallstack:\n(.*?)\n(Exception in eval\(\)[^\n]*\n[^\n]*\n)?\Z", re.S)


def make(rng, i):
    k = i % 4
    flags = rng.choice(["", "", "v", "t", "vt", "x" if rng.random() < 0.2 else ""])
    if k == 0:
        x = gen.G(rng, faults=rng.choice([0, 0.05, 0.1]), depth=3).program(rng.randint(2, 6))
        return Case([x], flags=flags)
    if k == 1:
        c = p30.chain(rng, i)
        return Case(["\n".join(c.codes[:rng.randint(2, len(c.codes))])], flags=flags, files=c.files)
    if k == 2:
        c = p03.make(rng, i)
        return Case(["\n".join(c.codes)], flags=flags, files=c.files, module=c.module)
    x = gen.G(rng, faults=0.02, depth=2).program(3)
    j = rng.randrange(len(x) + 1)
    if rng.random() < 0.25:
        # text which cannot be split into tokens
        ch = rng.choice("qeabx17%")
        x = x + rng.choice(["", "\n"]) + rng.choice(["(println \"a\\%sb\")", "\"\\%s", "(list 1 \"ok\") \"\\%s\"", "'\"\\\\\\%s\"", "; comment\n(f \"\\%s\" 2"]) % ch
        return Case([x], flags=flags, note="token " + ch)
    x = rng.choice([x[:j], x[:j] + ")" + x[j:], x[:j] + "(" + x[j:], x[:j] + "\"" + x[j:], x[:j] + "\\" + x[j:], x + "(println \"a\\" + rng.choice("qe1 x") + "b\")", x + "'", x + "\n(do", ")" + x, x[:j] + x[j + 1:], ""])
    return Case([x], flags=flags)


def named(rng, i):
    """modules of any name"""
    x = make(rng, i)
    if x.module == "main" and not x.files and rng.random() < 0.3:
        x.module = rng.choice(["", "dir/script.fuel", "my script.fuel", "{0}", "a:b", "<text>", "script\\x.fuel"])
    return x


def large(rng, i):
    """one program of large size: long stacks, far lines, long messages"""
    k = i % 4
    if k == 3:
        n = big.size(rng, 20, 3000)
        x = rng.choice(["(no%s 1)" % ("n" * n), "(setf v%s 1)" % ("v" * n), "(import \"%s\")" % ("i" * min(n, 200)), "(println \"%s\") (first 5)" % ("o" * n), "(def s \"%s\") (nth 90000 s)" % ("s" * n), "(evalstr \"%s(no-fn)\")" % (" " * n), "(rval \"%s\")" % ("r" * n)])
        return Case([x], flags=rng.choice(["", "v", "t"]))
    c = [big.deep_calls, big.lines, big.control][k](rng, i // 4)
    return Case(["\n".join(c.codes[:rng.randint(1, len(c.codes))])], flags=rng.choice(["", "v", "t"]), files=c.files)


HOSTILE = ["", " ", "\"\\q\"", "\"a\\\nb\"", "(println \"\\z\")", "(", ")", "'", "\"", "5", "nil", "abc", "#t", "\"text\"", ";", "; c", "(())", "()", "((lambda (x) x) 1)", "(((1)))", "(do)", "(return 5)", "(return)", "(quote)", "'()", "`", "`,", "`(,@5)", "(def)", "(lambda)", "(fn x)", "(evalstr \"(\")", "(evalstr 5)", "(import)", "(import 5)", "(import \"nix\")", "(apply)",
           "(apply 5 5)", "(eval)", "(setf)", "(setf 5 5)", "(setf (list 1) 5)", "(define-macro-eval)", "(define-macro-expand)", "(define-macro-expand m 5 6)", "(define-macro-eval m (x) 5)", "(define-macro-eval m 5 (x)) (m 1)", "(nop)", "(break)", "(trace 5)", "(format)", "(format \"{0}\")", "(slice)", "(map)", "(reduce)", "(dict-get)", "(doc 5)", "(searchdoc)", "(quasiquote)",
           "(need-l-value 1)", "(args)", "(arg 0)", "(argscount)", "\0", "(println \"\0\")", "\xff\xfe", "(\xe4)", "(5)", "(\"a\" 1)", "(nil)", "(#t 1)", "(2.5)", "1 2 3", "(+)", "(-)", "(string)", "(do 1 2)", "(while)", "(if)", "(if #t)", "(cons)", "(list . 1)", "(,a)", ",a", ",@a", "(~)", "(vars 1 2)", "(delvar)", "(sym)", "(int \"x\")", "(int nil)"]


def go():
    c = Check("P35", rule="programs which succeed or fail in all ways (also unreadable and hostile texts) given to the guarded evaluation: never an exception; value and output of the model if it succeeds, otherwise an error value, the output before the failure and then the report, whose message, line, module and call stack are those of the model and whose position is the place of the failing call in the text")
    cs = generate(named, c.n(3000), c.label("save")) + generate(lambda r, i: large(r, i), c.n(250), c.label("big save"))
    for x in cs:
        if x.err and not (x.note or "").startswith("token "):
            c.skipped[x.err] = c.skipped.get(x.err, 0) + 1
    cs = [x for x in cs if not x.err or (x.note or "").startswith("token ")]
    rng = c.rng("hostile")
    for k in range(c.n(400)):
        x = rng.choice(HOSTILE) if rng.random() < 0.6 else " ".join(rng.choice(HOSTILE) for _ in range(rng.randint(1, 4)))
        cs.append(Case([x], flags=rng.choice(["", "v", "t", "x"]), note="hostile", module=rng.choice(["main", "main", "", "a b.fuel"])))
        cs[-1].err = "not predicted"
    res = c.run([runner.Req("save", x.flags, x.module, x.inp, x.codes[0]) for x in cs], files=chk.files_of(cs))
    for x, r in zip(cs, res):
        if c.crash(r, x.show()):
            continue
        o = r.r[0]
        c.saw((x.codes, x.flags))
        if o["k"] != "ok":
            c.violation("raised:" + chk.key_of(x), "the guarded evaluation of\n%s\n   raised %s" % (x.codes[0], chk.brief(o)), {"case": x.show(), "observed": o})
            continue
        bad = judge(c, x, o)
        if bad:
            c.violation("report:" + chk.key_of(x), "%s\n%s\n   value %s output %r" % (bad, chk.clip(x.codes[0], 2000), o["v"], chk.clip(o["o"], 2000)), {"case": x.show(), "predicted": x.ref, "observed": o})
    c.finish()


def judge(c, x, o):
    if (x.note or "").startswith("token "):
        c.stat("errors of the tokenizer")
        what = "Invalid character after backslash " + x.note[6:]
        t = "\nError executing script.\n\n%s --> module=%s\n" % (what, x.module)
        return None if o["v"].startswith("E\"") and o["s"] == "Error: " + what and o["o"] == t else "expected the output %r" % t
    iserr = o["v"].startswith("E\"")
    m = REPORT.search(o["o"])
    if iserr:
        what = o["s"][len("Error: "):]
        if ("\nError executing script.\n\n" + what + " --> ") not in o["o"]:
            return "the error %r is not reported" % what
        if not m and what.startswith("Invalid character after backslash"):
            c.stat("errors of the tokenizer")
            t = "\nError executing script.\n\n%s --> module=%s\n" % (what, x.module)
            if x.err:
                return None if o["o"].endswith(t) else "the report does not end with %r" % t
            if not o["o"].endswith(t) or x.ref[0]["k"] == "ok" or x.ref[0]["m"] not in (None, what) or x.ref[0]["o"] != o["o"][:-len(t)]:
                return "expected %s" % x.ref[0]
            return None
    if x.err:
        c.stat("not predicted")
        if iserr and not m and "Error executing" in o["o"]:
            return "the report is not complete"
        return None
    p = x.ref[0]
    if p["k"] == "ok":
        c.stat("successful")
        v = p["v"] if p["v"] != "0" else "n"
        if chk.nn(o["v"]) != chk.nn(v) or chk.nn(o["o"]) != chk.nn(p["o"]):
            return "expected value %s and output %r" % (p["v"], chk.clip(p["o"]))
        return None
    c.stat("failing")
    if not iserr:
        return "expected an error value (%s)" % p["m"]
    if not m:
        return "no complete report"
    if ("v" in x.flags) != bool(m.group(7)):
        return "verbose report %s" % ("missing" if "v" in x.flags else "unasked")
    msg, line, start, stop, mod, stack = m.groups()[:6]
    if chk.nn(o["o"][:m.start()]) != chk.nn(p["o"]):
        return "expected output %r before the report" % chk.clip(p["o"])
    if p["m"] is not None and msg != p["m"]:
        return "expected message %r" % p["m"]
    if o["s"] != "Error: " + msg:
        return "the error value is not the message reported"
    if p["line"] is not None and line != str(p["line"]):
        return "expected line %s" % p["line"]
    if p["mod"] is not None and mod != p["mod"]:
        return "expected module %s" % p["mod"]
    if p.get("stack"):
        got = [(n, l, md) for k, n, l, md in p30.frames(stack)]
        want = [(n, l, md) for n, l, md in p["stack"]]
        if len(got) != len(want) or any(g[0] != w[0] or w[1] is not None and g[1] != w[1] or g[2] != w[2] for g, w in zip(got, want)):
            return "expected call stack %s, reported %s" % (want, got)
        if [f[0] for f in p30.frames(stack)] != list(range(1, len(got) + 1)):
            return "frames are numbered %s" % [f[0] for f in p30.frames(stack)]
        c.stat("frames compared", len(got))
        text = x.codes[0] if mod == x.module else (x.files or {}).get(mod)
        if text is not None and line.isdigit() and "define-macro" not in text:
            a, b = int(start), int(stop)
            w = text[a:b].lstrip() if 0 <= a <= b <= len(text) else None
            c.stat("positions compared")
            if w and re.match(r"\s*[\"\d.-]", w):
                return None     # numbers and texts as functions
            if not w or re.search(r"[\s()]", w):
                return "position %s-%s is no name in the text: %r" % (start, stop, w)
            if 1 + text[:b].count("\n") != int(line):
                return "position %s-%s (%r) is not on line %s" % (start, stop, w, line)
            f = re.match(r'Function "([^"]*)" not found', msg)
            if f and f.group(1) != w and not re.match(r"[-\d.]|(?i:nil|true|false|#[tf])$", f.group(1)):
                return "position %s-%s is %r, but the failing call is one of %s" % (start, stop, w, f.group(1))
    return None


if __name__ == "__main__":
    main(go)
