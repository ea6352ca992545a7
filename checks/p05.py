import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big
import random, re, string
NAMECH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-+*/<>=!?_.:#%&|^~$@[]{}"
SAFE = [chr(c) for c in range(32, 127) if chr(c) not in '"\\'] + ["\n", "\t", "\u00e4", "\u00ff"]
ANY = SAFE + ['"', "\\", "\r"]


class S(str):
    pass


def symbol(rng):
    n = rng.choice("abcdefghijklmnopqrstuvwxyzXYZ_*/<>=!?") + "".join(rng.choice(NAMECH) for _ in range(rng.randint(0, 6)))
    if n.lower() in ("nil", "true", "false", "inf", "infinity") or n.lower().startswith(("nan", "inf")):
        return "sym"
    return n


def gdatum(rng, d, safe):
    """(datum, text)"""
    k = rng.random()
    if d > 0 and k < 0.25:
        xs = [gdatum(rng, d - 1, safe) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        return [x for x, _ in xs], "(" + rng.choice([" ", "  ", "\n", "\t"]).join(t for _, t in xs) + ")"
    if k < 0.45:
        n = rng.choice([rng.choice(wl.INTS), rng.randint(-50, 50), rng.randint(-2**31, 2**31 - 1), rng.randint(-2**31, -2**31 + 3), 2**31 - 1 - rng.randint(0, 3)])
        t = str(n)
        if n >= 0 and rng.random() < 0.15:
            t = "+" + t
        if rng.random() < 0.1:
            t = re.sub(r"(\d+)", lambda m: "0" * rng.randint(1, 4) + m.group(1), t)
        return n, t
    if k < 0.62:
        digits = rng.randint(1, 6)
        v = rng.choice([round(rng.uniform(-10, 10), digits), round(rng.uniform(-1e9, 1e9), digits), float(rng.randint(-1000, 1000)), rng.choice([0.5, -0.25, 1e-6, 0.000001, 999999999.999999, -0.1, 123456.654321, 2147483648.0, -2147483649.0, 4294967296.0, 1e10])])
        v = v if v else 0.0
        t = "%.*f" % (6, v)
        r = rng.random()
        if r < 0.3:
            t = re.sub(r"0+$", "", t)           # 5. and 5.25
        elif r < 0.45:
            t = re.sub(r"^(-?)0\.", r"\1.", t)   # .5
        elif r < 0.6:
            t = "%re%d" % (v, 0) if "e" not in repr(v) else repr(v)
        elif r < 0.7 and v == int(v) and abs(v) > 2147483648:
            t = str(int(v))                     # integers out of range are floating point numbers
        elif r < 0.8 and v >= 0:
            t = "+" + t
        return float(t), t
    if k < 0.8:
        s = "".join(rng.choice(SAFE if safe else ANY) for _ in range(rng.choice([0, 1, 2, 4, 9, 30])))
        t = ""
        for ch in s:
            if ch in '"\\':
                t += "\\" + ch
            elif ch in "\n\t\r" and rng.random() < 0.5:
                t += {"\n": "\\n", "\t": "\\t", "\r": "\\r"}[ch]
            else:
                t += ch
        return s, '"' + t + '"'
    if k < 0.9:
        v, t = rng.choice([(True, "#t"), (True, "true"), (False, "#f"), (False, "false"), (None, "nil"), (None, "NIL"), (None, "Nil")])
        return v, t
    s = symbol(rng)
    return S(s), s


def dump(x):
    if x is None:
        return "n"
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, int):
        return "i%d" % x
    if isinstance(x, float):
        return "d%.17g" % x
    if isinstance(x, S):
        return "'" + x
    if isinstance(x, str):
        return '"' + x.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return "(" + " ".join(dump(e) for e in x) + ")"


def text(x, inner=False):
    if x is None:
        return "NIL"
    if x is True or x is False:
        return "#t" if x else "#f"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return "%.6f" % x
    if isinstance(x, S):
        return str(x)
    if isinstance(x, str):
        return '"' + x + '"' if inner else x
    return "(" + " ".join(text(e, True) for e in x) + ")"


def make(rng, i):
    codes, want = [], []
    for _ in range(8):
        safe = rng.random() < 0.6
        x, t = gdatum(rng, 3, safe)
        atom = not isinstance(x, (list, S))
        k = rng.randint(0, 4)
        if k == 0 and atom:
            codes.append(t)
            codes[-1] = "(rval %s)" % t
            want.append((dump(x), text(x)))
        elif k == 1 and atom:
            codes.append("(list %s (rval %s))" % (t, t))
            want.append((dump([x, x]), text([x, x])))
        elif k == 2:
            codes.append("(quote %s)" % t)
            want.append((dump(x), text(x)))
        elif k == 3:
            codes.append("'%s" % t if not atom else "(rval '%s)" % t)
            codes[-1] = "(rval '%s)" % t
            want.append((dump(x), text(x)))
        else:
            codes.append("(first '(%s))" % t)
            want.append((dump(x), text(x)))
        if safe:            # the printed text read again
            codes.append("(first '(%s))" % text(x, True))
            want.append((dump(x), text(x)))
            codes.append("(def d '(%s)) (== (str d) (str (evalstr (string \"'\" (str d)))))" % t)
            want.append(("#t", "#t"))
            codes.append("(evalstr (string \"'\" (str d)))")
            want.append((dump([x]), text([x])))
    return Case(codes, note=want)


def go():
    c = Check("P05", rule="random data (integers, floating point numbers in all notations, strings with all characters and escapes, booleans, nil, symbols, nested lists) written as literals in several ways and read: kind, value and text compared with the datum; their printed text is read again and must give the same kinds, values and text")
    cases = generate(make, c.n(1500), c.label("data"), predict=False)
    for case, r in zip(cases, c.run([x.req() for x in cases])):
        if c.crash(r, case.show()):
            continue
        for code, (v, s), y in zip(case.codes, case.note, r.r):
            c.saw(code, {"text": chk.clip(code, 200), "observed": chk.brief(y)})
            if y["k"] != "ok" or y["v"] != v or y["s"] != s:
                c.violation("read:" + chk.key_of(Case([code])), "%s gives %s with text %r, expected %s with text %r" % (code, chk.brief(y), y.get("s"), v, s), {"case": Case([code]).show(), "observed": y})
    c.compare(generate(big.strings, c.n(150), c.label("big strings")), kind="big")
    c.compare(generate(big.nested, c.n(100), c.label("big nested")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
