import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import big


TEXTS = ["", " ", "0", "-0", "+5", "12", " 12", "12 ", "12x", "x12", "1.5", ".5", "5.", "-.5", "1e3", "1e", "1e+2", "2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "007", "--1", "+-1", "1 2", "1,5", "- 1", "\n7", "\t-8",
         "#t", "nil", "true", "1e308", "1e309", "1e-320", "0.1", "123456789.123456789", "+", "-", ".", "e5", "12abc.5", "1_000"]
VALS = ["0", "1", "-1", "42", "2147483647", "-2147483648", "0.0", "0.5", "-0.5", "0.999999", "-0.999999", "1.5", "-1.5", "2147483647.0", "2147483647.9", "2147483648.0", "-2147483648.0", "-2147483648.9", "-2147483649.0", "1e10", "1e300", "-1e300", "#t", "#f", "nil", "'()",
        "'(1 2)", "'sym", "(list)", "(make-dict)", "(lambda (x) x)", "+", "if", "(nop)", "'(1)", "(sym \"a b\")", "(/ 1.0 0)", "(- (/ 0.0 0))"]
FUN = ["int", "float", "str", "sym", "parse-integer", "parse-float", "type", "typestr", "not", "len", "string"]


def matrix():
    vs = VALS + [wl.lit(t.encode().decode("unicode_escape")) for t in TEXTS]
    return ["(%s %s)" % (f, v) for f in FUN for v in vs] + ["(typestr (%s %s))" % (f, v) for f in FUN[:6] for v in vs]


def make(rng, i):
    codes = []
    for _ in range(20):
        k = rng.random()
        if k < 0.35:
            t = rng.choice(["", "", " ", "-", "+"]) + wl.text(rng, rng.randint(1, 6), "0123456789") + rng.choice(["", "", "", ".", ".5", ".25", "e2", "x", " ", "e", ".0.1"])
            codes.append("(%s %s)" % (rng.choice(FUN[:6]), wl.lit(t)))
        elif k < 0.55:
            n = wl.number(rng)
            codes.append("(list (int (str %s)) (float (str %s)) (int %s) (float %s) (str %s) (parse-float (str %s)))" % ((n,) * 6))
        elif k < 0.75:
            d = repr(round(rng.uniform(-1, 1) * 10 ** rng.randint(0, 12), rng.randint(0, 6)))
            codes.append("(list (int %s) (str %s))" % (d, d) if rng.random() < 0.5 else "(int %s)" % d)
        elif k < 0.9:
            f, g = rng.choice(FUN[:6]), rng.choice(FUN)
            codes.append("(%s (%s %s))" % (g, f, rng.choice([wl.value(rng), rng.choice(VALS), wl.lit(wl.hostile_text(rng))])))
        else:
            codes.append("(map (lambda (x) (list (type x) (typestr x) (str x))) (list %s))" % " ".join(rng.choice(VALS + [wl.value(rng)]) for _ in range(5)))
    return Case(codes)


def go():
    c = Check("P32", rule="matrix of %d functions over %d values and texts, random number texts, conversions there and back, nested conversions" % (len(FUN), len(VALS) + len(TEXTS)))
    m = matrix()
    bl = [m[i:i + 60] for i in range(0, len(m), 60)]
    c.compare(generate(lambda rng, i: Case(bl[i]), len(bl), c.label("matrix")), kind="matrix")
    c.compare(generate(make, c.n(1500), c.label("conv")), kind="conversion")
    c.compare(generate(big.numbers, c.n(200), c.label("big numbers")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
