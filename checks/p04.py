import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import gen, re

TOK = re.compile(r"""\s+|;[^\n]*\n?|(?P<t>"(?:\\.|[^"\\])*"|,@|[()'`,]|[^\s()'`,";]+)""", re.S)
EXTRA = ["(define-macro-eval em (p q) (do (println p) q)) (em 5 (+ 1 2))", "(define-macro-expand cm (p) '(list 1 p)) (println (cm 3))", "`(1 ,(+ 1 2) ,@(list 4 5) 'x)", "'(a (b \"c\" nil #t) 'q)", "(defn f (x) (if (> x 0) (f (- x 1)) (println \"done\"))) (f 2)",
         "(evalstr \"(+ 1 2)\")", "(println (quote (a b)) ''a)", "(list \"; no comment\" \"(\" \"a b\")", "(map (lambda (x) (/ 1 x)) '(1 0))", "(do (def d (make-dict)) (dict-set d \"k\" '(1 2)) (println d))"]


def tokens(text):
    out, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            return None
        if m.group("t"):
            out.append(m.group("t"))
        i = m.end()
    return out


def space(rng, style):
    def one():
        if style == 0:
            return rng.choice([" ", "  ", "\t", " ", "\f", "\v", "\r", " \f\v"])
        if style == 1:
            return rng.choice([" ", "\n", "\n\n", "\t\n "])
        if style == 2:
            return rng.choice([" ", "\r\n", "\r\n\r\n", "\t"])
        return rng.choice([" ", "\n", "; a comment\n", ";\n", ";; (unbalanced \" ' ` , ,@\n", "\t;\tx\n\n", " ;\"\n", ";(def a 5)\n", "; end)\r\n", "\r\n", ";;;;\n;\n"])
    return "".join(one() for _ in range(rng.choice([1, 1, 1, 2, 3])))


def wide(rng, style):
    """much space"""
    n = int(20 * 150 ** rng.random())
    k = rng.randint(0, 3)
    if style in (0, 2) or k == 0:
        return rng.choice([" ", "\t", " \t"]) * n
    if style == 1 or k == 1:
        return "\n" * n
    if k == 2:
        return "; " + rng.choice(["x", "(", "\"", "; ", "'", "\\"]) * n + "\n"
    return ";a\n" * (n // 4)


def layout(rng, toks, style):
    """text and the line on which each token stands"""
    out, line, lines = [], 1, []
    far = 2.0 / len(toks) if rng.random() < 0.15 else 0

    def put(s):
        nonlocal line
        out.append(s)
        line += s.count("\n")
    if rng.random() < 0.5:
        put(space(rng, style))
    for k, t in enumerate(toks):
        lines.append(line)
        put(t)
        if k + 1 < len(toks):
            n = toks[k + 1]
            free = t in ("(", ")", "'", "`", ",", ",@") or n in ("(", ")")
            if style == 4:
                if not free:
                    put(" ")
            elif not free or rng.random() < 0.7:
                put(space(rng, style) if far <= 0 or rng.random() > far else wide(rng, style))
    if rng.random() < 0.5:
        put(space(rng, style))
    return "".join(out), lines


def make(rng, i):
    g = gen.G(rng, faults=rng.choice([0, 0.02, 0.08]), depth=3, multiline=False)
    parts = [g.stmt() for _ in range(rng.randint(1, 6) if i % 40 else rng.randint(20, 80))]
    if rng.random() < 0.5:
        parts.insert(rng.randint(0, len(parts)), rng.choice(EXTRA))
    toks = tokens(" ".join(parts))
    base = "\n".join(toks)      # one token on each line: the reported line is the number of the token
    case = [Case([base], note=toks)]
    for style in rng.sample([0, 1, 2, 3, 4, 3], 3):
        t, lines = layout(rng, toks, style)
        case.append(Case([t], note=lines))
    return case


def go():
    c = Check("P04", rule="random programs (a part of them failing) written with one token on each line and again under three random layouts out of: spaces and tabs, line breaks, CR LF, comments of any content between any two tokens, no space where none is needed; value, text, output and message must be equal and the reported line must be the line of the same token")
    cases = generate(make, c.n(1600), c.label("layout"), predict=False)
    res = c.run([x.req() for x in cases])
    for k in range(0, len(cases), 4):
        b, br = cases[k], res[k]
        if c.crash(br, b.show()):
            continue
        x = br.r[0]
        for j in range(k + 1, k + 4):
            v, vr = cases[j], res[j]
            if c.crash(vr, v.show()):
                continue
            y = vr.r[0]
            c.saw(v.codes, {"text": chk.clip(v.codes[0], 200), "observed": chk.brief(y)})
            c.stat("values" if y["k"] == "ok" else "errors")
            d = None
            if x["k"] != y["k"]:
                d = "%s, but with one token per line %s" % (chk.brief(y), chk.brief(x))
            elif x["o"] != y["o"]:
                d = "output %r, but with one token per line %r" % (y["o"], x["o"])
            elif x["k"] == "ok":
                if (x["v"], x["s"]) != (y["v"], y["s"]):
                    d = "value %s, but with one token per line %s" % (y["v"], x["v"])
            elif x["m"] != y["m"]:
                d = "message %r, but with one token per line %r" % (y["m"], x["m"])
            elif x["k"] == "lisp" and x["mod"] == y["mod"] == "main":
                n = int(x["line"])
                if 1 <= n <= len(b.note):
                    c.stat("lines of errors")
                    if y["line"] != str(v.note[n - 1]):
                        d = "error reported for line %s, but token %d (%s) stands on line %d" % (y["line"], n, b.note[n - 1], v.note[n - 1])
                else:
                    d = "line %d of a text with %d lines" % (n, len(b.note))
            if d:
                c.violation("layout:" + chk.key_of(v), d + "\n" + chk.clip(v.codes[0], 1500), {"case": v.show(), "observed": vr.r, "one token per line": b.codes, "observed there": br.r})
    c.finish()


if __name__ == "__main__":
    main(go)
