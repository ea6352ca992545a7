"""Workload pieces shared by the checks: data literals, texts, layouts."""
import random

INTS = [0, 1, -1, 2, 3, 7, 10, 31, 32, 100, -5, 255, 65536, 2147483647, -2147483648, 2147483646, -2147483647]
DBLS = ["0.0", "1.0", "-1.0", "2.5", "-0.5", "0.1", "1e10", "3.0", "7.0", "0.001", "100.25"]
SYMS = ["a", "b", "foo", "x-y", "sym1", "a*", "p?", "->z", "+a", "a.b"]
CHARS = "abcxyzABCXYZ0123456789 .,:;!?()[]{}<>+-*/=_#'`@&|~^$%"


def text(rng, n=None, chars=CHARS):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 21]) if n is None else n
    return "".join(rng.choice(chars) for _ in range(n))


def lit(s):
    """string literal of a text"""
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + '"'


def hostile_text(rng):
    k = rng.random()
    if k < 0.6:
        return text(rng)
    if k < 0.8:
        return "".join(rng.choice(["a", "\\", '"', "\n", "\t", "\r", ";", "(", ")", "'", "{0}", " ", "\u00e4", "\u00ff", "\\n", ",@"]) for _ in range(rng.randint(0, 12)))
    if k < 0.9:
        return rng.choice(["ab", "aa", "xyx", " "]) * rng.randint(1, 40)
    return rng.choice(["nil", "#t", "12", "-7", "2.5", "1e5", "true", "()", "NIL", "0", "+", "-", ".", "'"])


def number(rng):
    k = rng.random()
    if k < 0.35:
        return str(rng.choice(INTS))
    if k < 0.65:
        return str(rng.randint(-20, 20))
    if k < 0.75:
        return str(rng.randint(-1 << 31, (1 << 31) - 1))
    if k < 0.9:
        return rng.choice(DBLS)
    return repr(round(rng.uniform(-100, 100), rng.randint(1, 6)))


def datum(rng, d=2, strs=True, syms=True, texts=None):
    """text of a datum (as inside of a quoted list)"""
    k = rng.random()
    if d > 0 and k < 0.22:
        return "(" + " ".join(datum(rng, d - 1, strs, syms, texts) for _ in range(rng.choice([0, 1, 2, 2, 3, 4]))) + ")"
    if k < 0.55:
        return number(rng)
    if k < 0.72 and strs:
        return lit((texts or text)(rng))
    if k < 0.84:
        return rng.choice(["#t", "#f", "nil", "true", "false", "NIL"])
    if syms:
        return rng.choice(SYMS)
    return number(rng)


def value(rng, d=2, **kw):
    """expression giving a datum"""
    x = datum(rng, d, **kw)
    return "'" + x if x[0] == "(" or x in SYMS else x
