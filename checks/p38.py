import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl

F1 = ["Sin", "Sinh", "Asin", "Cos", "Cosh", "Acos", "Tan", "Tanh", "Atan", "Exp", "Sqrt", "Abs", "Log", "Log10", "Round", "Truncate", "Floor", "Ceiling"]
VALS = ["0", "1", "-1", "2", "10", "100", "2147483647", "-2147483648", "0.0", "-0.0", "0.5", "-0.5", "1.5", "-1.5", "2.5", "-2.5", "3.5", "0.49999999999999994", "0.9999999999", "-0.0001", "1e-300", "1e300", "-1e300", "1e16", "4503599627370497.5", "9007199254740993.0",
        "3.141592653589793", "1.5707963267948966", "710.0", "-710.0", "1000.0", "(/ 1.0 0)", "(/ -1.0 0)", "(/ 0.0 0)", "2147483648.5", "-2147483649.5", "#t", "#f", "\"2.25\"", "\"abc\"", "nil", "'()", "'(1)", "'a", "(make-dict)", "(lambda (x) x)", "(nop)"]


def num(rng):
    k = rng.random()
    if k < 0.2:
        return rng.choice(VALS)
    if k < 0.4:
        return wl.number(rng)
    if k < 0.6:
        return "%d.%s" % (rng.randint(-50, 50), rng.choice(["5", "49", "51", "25", "999", "0", "001"]))
    return repr(rng.uniform(-1, 1) * 10 ** rng.randint(-3, 5))


def make(rng, i):
    codes = []
    for _ in range(25):
        k = rng.random()
        if k < 0.6:
            codes.append("(Math-%s %s)" % (rng.choice(F1), num(rng)))
        elif k < 0.75:
            codes.append("(Math-Pow %s %s)" % (num(rng), num(rng)))
        elif k < 0.8:
            x = num(rng)
            codes.append("(list (Math-Round %s) (Math-Floor %s) (Math-Ceiling %s) (Math-Truncate %s))" % (x, x, x, x))
        elif k < 0.85:
            codes.append("(Math-%s (Math-%s (Math-Abs %s)))" % (rng.choice(F1), rng.choice(F1), num(rng)))
        elif k < 0.9:
            codes.append("(map Math-%s (list %s))" % (rng.choice(F1), " ".join(num(rng) for _ in range(4))))
        elif k < 0.95:
            codes.append("(int (Math-%s %s))" % (rng.choice(["Round", "Floor", "Ceiling", "Truncate"]), num(rng)))
        else:
            codes.append("(Math-%s %s)" % (rng.choice(F1 + ["Pi", "Pow"]), " ".join(num(rng) for _ in range(rng.randint(0, 3)))))
    return Case(codes)


def go():
    c = Check("P38", rule="all %d mathematical functions over %d boundary values (limits, halves, infinities, not-a-number, other kinds), all pairs for the power, random numbers; compared bit by bit with the C library" % (len(F1) + 2, len(VALS)))
    m = ["(Math-%s %s)" % (f, v) for f in F1 for v in VALS] + ["(Math-Pow %s %s)" % (a, b) for a in VALS[:38] for b in VALS[:38]] + ["(Math-Pi)", "(type (Math-Abs -3))", "(type (Math-Round 2))"]
    bl = [m[i:i + 60] for i in range(0, len(m), 60)]
    c.compare(generate(lambda rng, i: Case(bl[i]), len(bl), c.label("matrix")), kind="matrix")
    c.compare(generate(make, c.n(1500), c.label("random")), kind="random")
    c.finish()


if __name__ == "__main__":
    main(go)
