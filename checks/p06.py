import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import runner

KIND = {"(": 0, ")": 1, "sym": 2, "str": 3, "int": 4, "dbl": 5, "'": 6, "`": 7, ",": 8, ",@": 9, "true": 10, "false": 11, "com": 12, "nil": 13}
NAMECH = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-+*/<>=!?_.:#%&|^~$[]{}\u00e4\u00fc\u00df"
STRCH = [chr(c) for c in range(32, 127) if chr(c) not in '"\\'] + ["\u00e4", "\u00ff", "\n", "\n", "\t", "\r", ";", "(", ")", "'", ",@"]


def piece(rng):
    """(kind, source, content)"""
    k = rng.randint(0, 19)
    if k <= 5:
        p = rng.choice("()")
        return p, p, p
    if k <= 7:
        p = rng.choice(["'", "`", ",", ",@"])
        return p, p, p
    if k <= 11:
        n = rng.choice("abcdefghijklmopqrstuvwxyzABCDEFGHJKLMOPQRSTUVWXYZ_*/<>=!?-+#%&|:\u00e4") + "".join(rng.choice(NAMECH) for _ in range(rng.choice([0, 1, 3, 6, 12, rng.choice([200, 200, 1500]) if rng.random() < 0.05 else 2])))
        if n.lower() in ("true", "false", "#t", "#f") or n.lower().startswith(("inf", "+inf", "-inf", "+nan", "-nan", "+.", "-.")) or (n[0] in "+-" and n[1:2].isdigit()):
            n = "foo"
        return "sym", n, n
    if k == 12:
        n = rng.choice(wl.INTS + [rng.randint(-2**31, 2**31 - 1) for _ in range(5)])
        return "int", str(n), str(n)
    if k == 13:
        d = round(rng.uniform(-1000, 1000), rng.randint(1, 5))
        return "dbl", repr(d), "%.6f" % d
    if k == 14:
        return rng.choice([("true", "#t", "true"), ("true", "true", "true"), ("false", "#f", "false"), ("false", "false", "false"), ("nil", "nil", "NIL"), ("nil", "NIL", "NIL"), ("nil", "Nil", "NIL")])
    if k <= 17:
        s = t = ""
        for _ in range(rng.choice([0, 1, 2, 5, 12, 40]) if rng.random() < 0.997 else rng.randint(100, 6000)):
            ch = rng.choice(STRCH) if rng.random() < 0.85 else None
            if ch is None:
                a, b = rng.choice([("\\n", "\n"), ("\\t", "\t"), ("\\r", "\r"), ("\\\\", "\\"), ('\\"', '"')])
                t += a
                s += b
            else:
                t += ch
                s += ch
        return "str", '"' + t + '"', s
    s = ";" + "".join(rng.choice([c for c in STRCH if c != "\n"] + ['"', "\\", ";"]) for _ in range(rng.choice([0, 0, 1, 5, 30]) if rng.random() < 0.995 else rng.randint(100, 3000)))
    return "com", s + "\n", s + "\n"


def make(rng, i):
    out, want, line = [], [], 1
    pieces = [piece(rng) for _ in range(rng.choice([0, 1, 2, 5, 10, 30, 100]) if i % 300 else rng.randint(500, 8000))]
    prev = None
    for n, (k, src, content) in enumerate(pieces):
        word = ("sym", "int", "dbl", "true", "false", "nil")
        must = (prev in word and k in word) or (prev == "," and src[0] == "@") or (prev in word and src.startswith("@"))
        if must or rng.random() < 0.5:
            w = "".join(rng.choice(" \t\n\r\f\v  \n") for _ in range(rng.choice([1, 1, 1, 2, 5]) if rng.random() < 0.998 else rng.randint(50, 2500)))
            out.append(w)
            line += w.count("\n")
        if k == "com" and n == len(pieces) - 1 and rng.random() < 0.5:
            src = content = src[:-1]
            if src.endswith("\\"):
                src = content = ";"
        out.append(src)
        at = line
        line += src.count("\n")
        want.append([KIND[k], content, at if k == "com" else line])
        prev = k
    if rng.random() < 0.3 and not (prev == "com" and not content.endswith("\n")):
        out.append(rng.choice([" ", "\n", "\r\n", "\t\t"]))
    return "".join(out), want


def job(rng, i):
    return Case([""], note=make(rng, i))


def go():
    c = Check("P06", rule="texts put together from pieces (parentheses, quote marks, symbols, numbers, constants, strings with escapes and line breaks, comments) with random white space, so that the token list is known by construction; number, order, kind, content and line of all tokens compared, start positions checked to be ordered and inside of the text")
    cases = generate(job, c.n(24000), c.label("text"), predict=False)
    res = c.run([runner.Req("tok", "0", x.note[0]) for x in cases])
    for case, r in zip(cases, res):
        t, want = case.note
        if c.crash(r, {"text": t}):
            continue
        toks = r.rec["toks"]
        c.saw(t, {"text": chk.clip(t, 200), "tokens": len(toks)}, nontrivial=len(want) > 0)
        c.stat("tokens", len(toks))
        d = None
        if r.r[0]["k"] != "ok":
            d = "rejected: %s" % chk.brief(r.r[0])
        elif len(toks) != len(want):
            d = "%d tokens, expected %d" % (len(toks), len(want))
        last = 0
        for k, (a, b) in enumerate(zip(toks, want)):
            if d:
                break
            if a[0] != b[0] or a[1] != b[1]:
                d = "token %d is %r, expected %r" % (k + 1, a[:2], b[:2])
            elif a[4] != b[2]:
                d = "token %d (%r) has line %d, expected %d" % (k + 1, a[1], a[4], b[2])
            elif not last <= a[2] <= len(t):
                d = "token %d (%r) starts at %d, the one before at %d, text has %d characters" % (k + 1, a[1], a[2], last, len(t))
            last = a[2]
        if d:
            c.violation("token:" + chk.key_of(Case([t])), d + "\n" + repr(chk.clip(t, 1000)), {"text": t, "expected": want, "observed": toks})
    c.finish()


if __name__ == "__main__":
    main(go)
