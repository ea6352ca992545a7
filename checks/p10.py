import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big


ALPH = ["ab", "a", "abc ", "xy\n", "aA", "  \t", " \v\f\na", " \u00a0a", "\x00a", "ABz", "a\"\\\\", "\u00e4\u00ffa", "(a)", "0123"]


def txt(rng):
    k = rng.random()
    if k < 0.12:
        return ""
    if k < 0.75:
        return wl.text(rng, rng.choice([1, 2, 3, 4, 6, 9, 14]), rng.choice(ALPH))
    if k < 0.9:
        return wl.text(rng)
    if k < 0.95:
        return wl.text(rng, rng.choice([100, 257, 1000]), "ab")
    return wl.hostile_text(rng)


def sub(rng, t):
    """a pattern that often occurs"""
    k = rng.random()
    if t and k < 0.6:
        i = rng.randrange(len(t))
        return t[i:i + rng.choice([1, 1, 2, 3, len(t)])]
    if k < 0.7:
        return ""
    if k < 0.8:
        return t + "a"
    return txt(rng)


def expr(rng, t, name):
    p = lambda: rng.choice([0, 1, 2, len(t) - 1, len(t), len(t) + 1, -1, -2, rng.randint(0, len(t) + 2)])
    k = rng.randint(0, 16)
    if k == 0:
        return "(len %s)" % name
    if k == 1:
        return "(list (first %s) (car %s))" % (name, name)
    if k == 2:
        return "(last %s)" % name
    if k == 3:
        return "(%s %s)" % (rng.choice(["rest", "cdr"]), name)
    if k in (4, 5):
        return "(nth %d %s)" % (p(), name)
    if k in (6, 7):
        return "(slice %s %d %d)" % (name, p(), p())
    if k == 8:
        return "(search %s %s)" % (wl.lit(sub(rng, t)), name)
    if k == 9:
        return "(search %s %s %d)" % (wl.lit(sub(rng, t)), name, p())
    if k == 10:
        return "(search %s %s %d %d)" % (wl.lit(sub(rng, t)), name, p(), max(p(), -1))
    if k == 11:
        return "(replace %s %s %s)" % (name, wl.lit(sub(rng, t)), wl.lit(rng.choice(["", "a", "xyz", sub(rng, t), sub(rng, t) * 2])))
    if k == 12:
        return "(%s %s)" % (rng.choice(["trim", "reverse", "upper-case", "lower-case"]), name)
    if k == 13:
        return "(trim %s)" % wl.lit(wl.text(rng, rng.randint(0, 4), " \t\n\r\v\f\u00a0") + t + wl.text(rng, rng.randint(0, 4), " \t\n\r\v\f\u00a0"))
    if k == 14:
        return "(%s %s)" % (rng.choice(["string", "+", "add"]), " ".join([name] + [rng.choice([wl.lit(sub(rng, t)), name, wl.number(rng), "#t", "nil", "'(1 \"a\")"]) for _ in range(rng.choice([1, 2, 3, 4, 5]))]))
    if k == 15:
        return "(upper-case (lower-case (reverse (trim %s))))" % name
    # combination: parts add up to the whole
    i = rng.randint(0, len(t))
    return "(string (slice %s 0 %d) (slice %s %d -1))" % (name, i, name, i)


def make(rng, i):
    codes = []
    for _ in range(10):
        t = txt(rng)
        if rng.random() < 0.5:
            codes.append(expr(rng, t, wl.lit(t)))
        else:
            n = rng.randint(2, 5)
            codes.append("(do (def s %s) (def r s) %s (list s r (len s)))" % (wl.lit(t), " ".join("(println %s)" % expr(rng, t, "s") for _ in range(n))))
        if rng.random() < 0.15:
            codes.append("(%s %s)" % (rng.choice(["len", "first", "last", "rest", "trim", "reverse", "upper-case", "lower-case", "slice", "search", "replace", "nth"]), " ".join(wl.value(rng) for _ in range(rng.randint(1, 3)))))
    return Case(codes)


def go():
    c = Check("P10", rule="per case 10 or more expressions of string functions on generated texts (empty, blanks, repeated patterns, quotes, line breaks, bytes above 127, up to 1000 characters) with positions and lengths around all boundaries; original texts printed afterwards")
    c.compare(generate(make, c.n(2500), c.label("strings")), kind="string")
    c.compare(generate(big.strings, c.n(200), c.label("big strings")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
