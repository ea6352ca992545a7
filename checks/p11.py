import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import big


PIECES = ["{0}", "{1}", "{2}", "{3}", "{4}", "{0,5}", "{1,-5}", "{0,1}", "{2,10}", "{3,-12}", "{0,0}", "{1,300}", "{0,-0}", "a", " ", "text", "{", "}", "{}", "{x}", "{{", "}}", "{5}", "{9}", "{0", "0}", "{0,}", "{0,x}", "{-1}", "{ 0}", "{00}", "{0,5", "%s", "\n", ",", "{1}{1}", "{0}{0}"]


def make(rng, i):
    codes = []
    for _ in range(14):
        n = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
        if rng.random() < 0.6:
            fmt = "".join(rng.choice(PIECES[:13] + PIECES[13:16] * 3) for _ in range(rng.randint(0, 6)))
        else:
            fmt = "".join(rng.choice(PIECES) for _ in range(rng.randint(0, 6)))
        args = []
        for _ in range(n):
            k = rng.random()
            if k < 0.35:
                args.append(wl.lit(rng.choice(["{0}", "{1}", "{2}", "x{1}y", "{0,5}", "", "abc", "{", "}{", "longer than the width"])))
            elif k < 0.45:
                args.append(wl.lit(wl.hostile_text(rng)))
            else:
                args.append(wl.value(rng))
        call = "(format %s)" % " ".join([wl.lit(fmt)] + args)
        k = rng.random()
        if k < 0.15:
            call = "(println %s)" % call
        elif k < 0.25:
            call = "(len %s)" % call
        elif k < 0.3:
            call = "(format (format %s))" % " ".join([wl.lit(fmt)] + args)
        codes.append(call)
    if rng.random() < 0.1:
        codes.append("(format %s)" % " ".join(wl.value(rng) for _ in range(rng.choice([0, 6, 7, 8]))))
    return Case(codes)


def go():
    c = Check("P11", rule="per case 14 formats built from placeholders 0 to 4 with and without widths, other text, incomplete placeholders, and arguments of all kinds including texts that look like placeholders")
    c.compare(generate(make, c.n(2500), c.label("format")), kind="format")
    c.compare(generate(big.formats, c.n(150), c.label("big formats")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
