import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big

VALS = ["0", "1", "-1", "2", "10", "9", "100", "2147483647", "-2147483648", "0.0", "-0.0", "1.0", "-1.0", "1.5", "2147483647.0", "2147483646.5", "-2147483648.5", "1e10", "-1e10", "0.1", "1e300",
        '""', '"a"', '"b"', '"ab"', '"aa"', '"A"', '"B"', '"1"', '"10"', '"9"', '"a b"', '"1.0"', '"#t"', '"true"', '"\u00e4"', '"z"', '"a\x00"', '"a\x00b"', '"a\x00c"', "#t", "#f", "nil", "'()", "'(1)", "'(1 2)", "'(1 3)", "'(2 1)", "'(1.0 2)", "'(1 (2))", "'(1 (3))",
        "'(a)", "'(\"a\")", "'(1 nil)", "'(1 ())", "'(#t)", "'(#f)", "'a", "'b", "(list 1 2)", "(list \"a\" 'a)", "(nop)", "'((1 2) (3 4))", "'((1 2) (3 5))"]
OPS = ["<", ">", "<=", ">=", "==", "!=", "=", "equal"]


def pairs():
    return ["(%s %s %s)" % (op, a, b) for op in OPS[:6] for a in VALS for b in VALS] + ["(%s %s %s)" % (op, a, b) for op in OPS[6:] for a in VALS[::3] for b in VALS]


def mutate(rng, s):
    """a slightly different datum text"""
    toks = s.replace("(", " ( ").replace(")", " ) ").split(" ")
    idx = [i for i, t in enumerate(toks) if t and t not in "()"]
    if not idx:
        return "(1)"
    i = rng.choice(idx)
    k = rng.random()
    if k < 0.3:
        toks[i] = wl.number(rng)
    elif k < 0.4:
        toks[i] = ""
    elif k < 0.6:
        toks[i] = toks[i] + " " + toks[i]
    elif k < 0.7:
        toks[i] = "(" + toks[i] + ")"
    elif k < 0.8 and toks[i].lstrip("-").isdigit():
        toks[i] = toks[i] + ".0"
    elif k < 0.9:
        toks[i] = '"' + toks[i].strip('"') + '"'
    else:
        toks[i] = rng.choice(["nil", "#t", "()", "a", "0"])
    return " ".join(toks)


def deep(rng):
    n = rng.choice([1, 3, 8, 20])
    return "(" + " ".join(wl.datum(rng, rng.choice([0, 1, 3]), texts=lambda r: wl.text(r, chars="abcABC01")) for _ in range(n)) + ")"


def number_close(rng):
    b = rng.choice([0, 1, 100, 12345, 2147483647, -2147483648])
    return [str(b), "%d.0" % b, "%d.5" % b, "%d.25" % b, "%d.0001" % b, str(b - 1 if b > 0 else b + 1)]


def make(rng, i):
    codes = []
    for _ in range(12):
        k = rng.random()
        if k < 0.5:
            a = deep(rng)
            b = a if rng.random() < 0.4 else mutate(rng, a)
            op = rng.choice(OPS[4:])
            codes.append("(do (def a '%s) (def b '%s) (list (%s a b) (%s b a) (%s a a) (== a b) (!= a b) (equal b a)))" % (a, b, op, op, op))
        elif k < 0.7:
            vs = rng.sample(number_close(rng), 3) + [wl.number(rng)]
            codes.append("(list " + " ".join("(%s %s %s)" % (op, x, y) for x in vs for y in vs for op in rng.sample(OPS, 3)) + ")")
        elif k < 0.9:
            base = wl.text(rng, chars="abAB01 \u00e4\u00ff~")
            vs = [wl.lit(x) for x in (base, base + rng.choice("aA0\u00ff"), base[:-1], base.swapcase() if base.isascii() else base + base, wl.text(rng, chars="abAB01"))]
            codes.append("(list " + " ".join("(%s %s %s)" % (op, x, y) for x in vs for y in vs for op in rng.sample(OPS, 2)) + ")")
        else:
            op = rng.choice(OPS)
            codes.append("(do (def a %s) (def b %s) (%s a b))" % (wl.value(rng), wl.value(rng), op))
    return Case(codes)


def laws(c):
    """the laws themselves, on the observed answers only"""
    rng = c.rng("laws")
    num = [v for v in VALS if v[0] in "0123456789-" and v not in ("-",)]
    strs = [v for v in VALS if v[0] == '"']
    groups = [num + [wl.number(rng) for _ in range(c.n(14, 60))], strs + [wl.lit(wl.text(rng, chars="abAB01 ~")) for _ in range(c.n(14, 60))]]
    reqs = []
    for g in groups:
        for op in ("<", ">", "<=", ">=", "==", "!="):
            reqs.append(chk.runner.ev(*["(list %s)" % " ".join("(%s %s %s)" % (op, a, b) for b in g) for a in g]))
    res = c.run(reqs)
    k = 0
    for g in groups:
        tab = {}
        for op in ("<", ">", "<=", ">=", "==", "!="):
            r = res[k]
            k += 1
            if c.crash(r, {"op": op}):
                return
            tab[op] = [[t == "#t" for t in x["v"].strip("()").split(" ")] if x["k"] == "ok" else None for x in r.r]
        n = len(g)
        for i in range(n):
            for j in range(n):
                lt, gt, le, ge, eq, ne = (tab[o][i][j] if tab[o][i] else None for o in ("<", ">", "<=", ">=", "==", "!="))
                c.saw((g[i], g[j]))
                isdbl = "." in g[i] + g[j] or "e" in g[i] + g[j]
                rules = [("exactly one of < > =", (lt + gt + eq) == 1 if not (isdbl and g is groups[0]) else not (lt and gt)), ("!= is not =", ne == (not eq)), ("<= is not >", le == (not gt)), (">= is not <", ge == (not lt)),
                         ("< mirrored", lt == tab[">"][j][i]), ("= symmetric", eq == tab["=="][j][i]), ("= reflexive", i != j or eq)]
                for name, ok in rules:
                    if not ok:
                        c.violation("law:%s:%s:%s" % (name.replace(" ", ""), g[i], g[j]), "law '%s' fails for %s and %s" % (name, g[i], g[j]), {"request": {"kind": "eval", "fields": ["", "main", "", "(list (< {0} {1}) (> {0} {1}) (<= {0} {1}) (>= {0} {1}) (== {0} {1}) (!= {0} {1}))".format(g[i], g[j])]}})
        for i in range(n):
            for j in range(n):
                if tab["<"][i][j]:
                    for m in range(n):
                        if tab["<"][j][m] and not tab["<"][i][m]:
                            c.violation("transitive:%s:%s:%s" % (g[i], g[j], g[m]), "< is not transitive on %s %s %s" % (g[i], g[j], g[m]), {"values": [g[i], g[j], g[m]]})
    c.stat("triples checked", sum(len(g) ** 3 for g in groups))


def values(c):
    """the comparison of the class of the values, which programs using the library rely on: one order for all numbers and texts, equality in step with it"""
    rng = c.rng("values")
    num = [v for v in VALS if v[0] in "0123456789-"]
    strs = [v for v in VALS if v[0] == '"']
    blocks = []
    for _ in range(c.n(12, 80)):
        blocks.append(rng.sample(num, 8) + [wl.number(rng) for _ in range(8)] + number_close(rng))
        blocks.append(rng.sample(strs, 10) + [wl.lit(wl.text(rng, chars="abAB01 ~\u00e4")) for _ in range(12)])
        blocks.append(rng.sample(VALS, 20))
    codes = ["(list %s)" % " ".join(b) for b in blocks]
    res = c.run([chk.runner.Req("compare", x) for x in codes] + [chk.runner.ev(*["(list %s)" % " ".join("(list (< %s %s) (== %s %s))" % (a, x, a, x) for x in b) for a in b]) for i, b in enumerate(blocks) if i % 3 != 2])
    tables = iter(res[len(codes):])
    for i, (b, code, r) in enumerate(zip(blocks, codes, res)):
        if c.crash(r, {"code": code}):
            continue
        t = r.rec["c"]
        ordered = i % 3 != 2
        c.saw(code, {"code": code, "observed": [" ".join(x) for x in t[:2]]})
        if len(t) != len(b) or any(len(x) != len(b) for x in t):
            c.violation("values:" + chk.hashlib.md5(code.encode()).hexdigest()[:10], "comparison of the values of %s ended: %s" % (chk.clip(code), chk.clip(chk.brief(r.r[0]))), {"code": code})
            continue
        lang = None
        if ordered:
            q = next(tables)
            if c.crash(q, {"code": code}):
                continue
            lang = [[p == "#t" for p in x["v"].replace("(", " ").replace(")", " ").split()] for x in q.r]
        n = len(b)
        c.stat("pairs of values compared", n * n)

        def broken(what, *names):
            c.violation("values:%s:%s" % (what.replace(" ", "-"), ":".join(names)), "the comparison of the values is not right: %s for %s" % (what, " ".join(names)), {"code": code, "table": t})
        for x in range(n):
            for y in range(n):
                a, m = t[x][y], t[y][x]
                if (a[2] == a[3]):
                    broken("!= is not the opposite of ==", b[x], b[y])
                if a[2] != m[2]:
                    broken("== is not symmetric", b[x], b[y])
                if x == y and a[2] != "1":
                    broken("== is not reflexive", b[x])
                if {"+": "-", "-": "+", "0": "0"}[a[0]] != m[0]:
                    broken("CompareTo is not antisymmetric", b[x], b[y])
                if not ordered:
                    continue
                if a[0] != a[1]:
                    broken("CompareTo depends on the form of the other value", b[x], b[y])
                if len(lang[x]) == 2 * n and (a[0] == "-") != lang[x][2 * y]:
                    broken("CompareTo differs from <", b[x], b[y])
                if len(lang[x]) == 2 * n and (a[0] == "0") != lang[x][2 * y + 1]:
                    broken("CompareTo differs from ==", b[x], b[y])


def go():
    c = Check("P09", rule="all pairs of %d values of all kinds for 8 operators, nested lists with one changed element, close numbers, similar texts: compared with the reference; laws checked on all pairs and triples of numbers and of texts" % len(VALS))
    ps = pairs()
    blocks = [ps[i:i + 80] for i in range(0, len(ps), 80)]
    c.compare(generate(lambda rng, i: Case(blocks[i]), len(blocks), c.label("pairs")), kind="pair")
    c.compare(generate(make, c.n(1200), c.label("random")), kind="random")
    laws(c)
    values(c)
    c.compare(generate(big.nested, c.n(150), c.label("big nested")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
