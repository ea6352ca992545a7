import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import big
from chk import Check, Case, generate, main

INTS = ["0", "1", "-1", "2", "-2", "3", "7", "-7", "10", "31", "32", "33", "-33", "63", "64", "100", "255", "256", "46340", "46341", "-46341", "65535", "65536", "1073741823", "1073741824", "-1073741824",
        "2147483646", "2147483647", "-2147483647", "-2147483648", "123456789"]
DBLS = ["0.0", "-0.0", "1.0", "-1.0", "0.5", "-0.5", "2.5", "1e-8", "1e-9", "0.1", "1e10", "-1e10", "2147483647.0", "2147483648.0", "-2147483649.0", "1e300", "-1e300", "1e-300", "3.0", "1e16"]
MISC = ["#t", "#f", "nil", '"12"', '"-3"', '"2.5"', '"abc"', '""', "'()", "'(1 2)", "'sym", "(make-dict)", "(list 1.5)", "(lambda (x) x)", '" 7"', '"7x"']
ALL = INTS + DBLS + MISC
OPS = ["+", "add", "-", "sub", "*", "mul", "/", "div", "%", "mod"]
BITS = ["<<", ">>", "&", "|", "^"]


def operand(rng):
    k = rng.random()
    if k < 0.42:
        return rng.choice(INTS)
    if k < 0.55:
        return str(rng.randint(-1 << 31, (1 << 31) - 1))
    if k < 0.7:
        return rng.choice(DBLS)
    if k < 0.78:
        return repr(round(rng.uniform(-1000, 1000), rng.randint(0, 6)))
    if k < 0.93:
        return str(rng.randint(-12, 12))
    return rng.choice(MISC)


def tree(rng, d):
    if d == 0 or rng.random() < 0.15:
        return operand(rng)
    return "(%s %s)" % (rng.choice(OPS[:8] + ["+", "-", "*"]), " ".join(tree(rng, d - 1) for _ in range(rng.choice([1, 2, 2, 2, 3, 4]))))


def pairs():
    out = []
    for op in OPS[0::2] + ["mod"]:
        for a in ALL:
            for b in ALL:
                out.append("(%s %s %s)" % (op, a, b))
    for op in BITS:
        for a in INTS + ["1.0", "#t", "nil", '"1"']:
            for b in INTS + ["2.0", "#f", "'(1)"]:
                out.append("(%s %s %s)" % (op, a, b))
    for a in ALL:
        for op in OPS + ["~"]:
            out.append("(%s %s)" % (op, a))
    return out


def make(rng, i):
    codes = []
    for _ in range(40):
        k = rng.random()
        if k < 0.35:
            codes.append("(%s %s)" % (rng.choice(OPS), " ".join(operand(rng) for _ in range(rng.choice([1, 2, 3, 3, 4, 5, 6])))))
        elif k < 0.55:
            codes.append("(%s %s %s)" % (rng.choice(BITS), operand(rng), operand(rng)))
        elif k < 0.7:
            codes.append(tree(rng, rng.randint(2, 4)))
        elif k < 0.78:
            codes.append("(do (def a %s) (def b %s) (list (%s a b) (%s b a) a b))" % (operand(rng), operand(rng), rng.choice(OPS), rng.choice(OPS)))
        elif k < 0.86:
            codes.append("(reduce %s '(%s) %s)" % (rng.choice(["+", "*", "-", "/", "%", "|", "&", "^"]), " ".join(operand(rng) for _ in range(rng.randint(0, 5)) if True).replace("'", ""), operand(rng)))
        elif k < 0.93:
            codes.append("(apply %s (list %s))" % (rng.choice(OPS + BITS), " ".join(operand(rng) for _ in range(rng.randint(0, 5)))))
        else:
            codes.append("(map (lambda (x) (%s x %s)) (list %s))" % (rng.choice(OPS + BITS), operand(rng), " ".join(operand(rng) for _ in range(rng.randint(1, 5)))))
    return Case(codes)


def go():
    c = Check("P08", rule="one environment with 40 arithmetic expressions per case: all pairs of %d boundary operands of all kinds for all operators, random tuples, trees, folds and applications; each expression is compared with the reference" % len(ALL))
    ps = pairs()
    blocks = [ps[i:i + 60] for i in range(0, len(ps), 60)]
    cases = generate(lambda rng, i: Case(blocks[i]), len(blocks), c.label("pairs"))
    c.compare(cases, kind="pair")
    c.compare(generate(make, c.n(500), c.label("random")), kind="random")
    c.compare(generate(big.arithmetic, c.n(250), c.label("big arithmetic")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
