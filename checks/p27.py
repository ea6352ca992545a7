import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl, big

import build, runner, refinterp as R

ODD = ["(make-dict)", "(lambda (x) x)", "+", "if", "(nop)", "(sym \"a b\")", "(list)", "'((()))", "(list nil (list nil))", "(list 'a \"a\" 'nil \"nil\")", "(/ 1.0 0)", "(list 1.5 \"x\" #t (make-dict))", "(first '((1 \"a\")))", "'(quote a)", "''a", "`(1 ,2)", "(list \"\" \"\")", "\"\"",
       "(do (def dd (make-dict)) (dict-set dd \"k\" '(1 \"v\")) (dict-set dd 2 nil) (dict-set dd 'y 1.5) (dict-set dd #t \"q\") (rval dd))", "(string 1 nil #t 2.5 'x '(1 \"a\" nil))"]


def val(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(ODD)
    if k < 0.75:
        return wl.value(rng, 3)
    if k < 0.9:
        return wl.lit(wl.hostile_text(rng))
    return wl.lit("x" * rng.choice([100, 1000, 5000]))


def out(rng, d=2):
    vs = " ".join(val(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 7])))
    k = rng.randint(0, 11)
    if k <= 3:
        return "(println %s)" % vs
    if k <= 5:
        return "(print %s)" % vs
    if k == 6:
        return "(println (print %s))" % vs
    if k == 7 and d:
        return "(defn f (x) (do %s (println x) %s)) (f %s) (f 2)" % (out(rng, d - 1), out(rng, d - 1), val(rng))
    if k == 8:
        v = val(rng)
        return "(do (def v %s) (println v) (println (str v)) (println (format \"{0}\" v)) (println (list v)) (print (string \"\" v)))" % v
    if k == 9:
        return "(map println (list %s))" % vs
    if k == 10:
        return "(println (map print (list %s)))" % vs
    return rng.choice(["(flush)", "(evalstr \"(println 1 \\\"a\\\")\")", "(apply println (list %s))" % vs, "(def n 0) (while (< n 5) (do (setf n (+ n 1)) (print n)))"])


def make(rng, i):
    return Case([" ".join(out(rng) for _ in range(rng.randint(1, 6))) + rng.choice(["", "", " (no-such-fn)"]) for _ in range(rng.randint(1, 4))])


def go():
    c = Check("P27", rule="sequences of print, println, str, format and concatenation of values of all kinds (nested lists, dictionaries, functions, undefined, long and hostile texts), in functions, loops, callbacks and nested evaluations, partly followed by an error; part of them run by the real program, reading its standard output")
    cases = generate(make, c.n(3000), c.label("print"))
    c.compare(cases, kind="output")
    # standard output of the program itself (one module per program)
    sub = [k for k in cases if not k.err and len(k.codes) == 1 and k.ref[0]["k"] == "ok"][:c.n(80, 500)]
    jobs = [(["s.fuel"], b"", {"s.fuel": k.codes[0]}) for k in sub]
    for k, r in zip(sub, runner.run_cli(build.build_cli(), jobs)):
        c.saw(("cli", k.codes))
        if chk.nn(r["out"]) != chk.nn(k.ref[0]["o"]) or r["rc"] != 0:
            c.violation("stdout:" + chk.key_of(k), "standard output %r, expected %r (status %s)" % (chk.clip(r["out"]), chk.clip(k.ref[0]["o"]), r["rc"]), {"case": k.show(), "result": r})
    c.compare(generate(big.printed, c.n(150), c.label("big printed")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
