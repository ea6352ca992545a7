import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import gen
from p04 import tokens
DELIM = ("(", ")", "'", "`", ",", ",@")


def balanced(toks):
    """well formed: every list closed, every quote mark followed by an expression"""
    depth, after = 0, False
    for t in toks:
        if t == "(":
            depth += 1
            after = False
        elif t == ")":
            depth -= 1
            if depth < 0 or after:
                return False
        elif t in DELIM:
            after = True
        else:
            after = False
    return depth == 0 and not after


def mutate(rng, toks):
    toks = list(toks)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        k = rng.randint(0, 6)
        ps = [i for i, t in enumerate(toks) if t in ("(", ")")]
        if k <= 1 and ps:
            del toks[rng.choice(ps)]
        elif k == 2:
            toks.insert(rng.randint(0, len(toks)), rng.choice(["(", ")"]))
        elif k == 3 and ps:
            i = rng.choice(ps)
            toks[i] = "(" if toks[i] == ")" else ")"
        elif k == 4 and ps:
            t = toks.pop(rng.choice(ps))
            toks.insert(rng.randint(0, len(toks)), t)
        elif k == 5:
            toks.insert(rng.choice([len(toks)] + [i for i, t in enumerate(toks) if t == ")"]), rng.choice(["'", "`", ",", ",@"]))
        elif k == 6:
            toks = toks[:rng.randint(0, len(toks))]
    return toks


PROBE = ["(println \"ran\")", "(def probe 1)", "(setf known 99)", "(gdef probe 2)", "(define-macro-expand pm (x) '(println x))", "(define-macro-eval pm (x) x)", "(defn probe-fn () 1)", "(push 7 lst)", "(File-WriteAllText \"probe%d\" \"x\")", "(trace #t)"]
AFTER = "(list known lst probe (gettrace) (File-Exists \"probe%d\"))"


def make(rng, i):
    g = gen.G(rng, depth=2, multiline=False)
    parts = [g.stmt() for _ in range(rng.randint(0, 4))]
    for _ in range(rng.randint(1, 3)):
        p = rng.choice(PROBE)
        parts.insert(rng.randint(0, len(parts)), p % i if "%d" in p else p)
    if rng.random() < 0.2:
        parts.append(rng.choice(["'a", "'(1 2)", "`(1 ,known)", "(println '() '(()))", "()", "(rval \"(((\")", "(rval \")\") ; )))\n", "''a"]))
    toks = tokens(" ".join(parts))
    mode = rng.randint(0, 9)
    bad = None
    if mode >= 2:
        toks = mutate(rng, toks)
    ok = balanced(toks)
    out, prev = [], None
    for t in toks:
        out.append(t)
        out.append(rng.choice([" ", "\n", "  ", " ; ( \"\n"]) if rng.random() < 0.9 or not (t in DELIM) else "")
    text = "".join(out)
    if mode == 9:     # string which is not terminated
        k = rng.choice(["\"abc", "\"", "(println \"abc)", "(println \"a\" \"b)", "\"\\\""])
        text, ok = text + " " + k, False
    via = rng.randint(0, 5)
    if via == 0:
        run = "(evalstr %s)" % wl.lit(text)
    elif via == 1:
        run = "(import \"f%d.fuel\")" % i
    else:
        run = text
    codes = ["(def known 5) (def lst (list 1 2)) (defn id (x) x)", run, AFTER % i, "(trace #f) (println (id known))"]
    return Case(codes, files={"f%d.fuel" % i: text} if via == 1 else {}, note=ok)


def go():
    c = Check("P07", rule="random programs with probing statements (output, definitions, assignments, macro definitions, files) whose delimiters were removed, added, turned, moved or cut off, evaluated directly, as text and as module: a text which is not well formed by an independent count must be rejected without any effect, all others behave as the model says; the environment is probed and used afterwards")
    cases = generate(make, c.n(4000), c.label("text"), predict=False)
    good = [x for x in cases if x.note]
    for x in good:
        chk._predict(x)
    c.compare(good, kind="wellformed")
    bad = [x for x in cases if not x.note]
    clean = None
    for case, r in zip(bad, c.run([x.req() for x in bad], files=chk.files_of(bad))):
        if c.crash(r, case.show()):
            continue
        c.saw(case.codes, {"text": chk.clip(case.codes[1], 200), "observed": chk.brief(r.r[1])})
        c.stat("rejected")
        a = r.r
        d = None
        if a[1]["k"] != "lisp":
            d = "a text which is not well formed was accepted: %s" % chk.brief(a[1])
        elif a[1]["o"]:
            d = "output of a rejected text: %r" % a[1]["o"]
        elif a[2].get("v") != '(i5 (i1 i2) \'probe "" #f)':
            d = "a rejected text had effects: %s" % chk.brief(a[2])
        elif a[3].get("o") != "5\n":
            d = "environment not usable afterwards: %s" % chk.brief(a[3])
        if d:
            c.violation("malformed:" + chk.key_of(case), d + "\n" + chk.clip(case.codes[1], 1000), {"case": case.show(), "observed": a})
    c.compare(generate(big.malformed, c.n(250), c.label("big malformed")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
