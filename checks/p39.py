import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import big

import build, runner, refinterp as R


def line(rng):
    k = rng.random()
    if k < 0.2:
        return ""
    if k < 0.6:
        return wl.text(rng)
    if k < 0.75:
        return rng.choice(["nil", "(+ 1 2)", "\"q\"", "\\", " lead", "trail ", "\ttab", "x\r", "; c", "\u00e4\u00ff"])
    if k < 0.9:
        return "ab" * rng.choice([50, 500, 3000])
    return str(rng.randint(-100, 100))


def make(rng, i):
    lines = [line(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 15]))]
    inp = "\n".join(lines) + rng.choice(["\n", "", "\n\n"])
    codes = []
    for _ in range(rng.randint(1, 5)):
        parts = []
        for _ in range(rng.randint(1, 5)):
            k = rng.randint(0, 9)
            parts.append(["(println (readline))", "(def l (readline)) (println (len l) l)", "(print (readline) (readline))", "(println (list (readline) (readline)))", "(defn rd () (string \"<\" (readline) \">\")) (println (rd) (rd))",
                          "(def n 0) (while (< n 3) (do (setf n (+ n 1)) (println n (readline))))", "(println (int (readline)))", "(println (map (lambda (x) (string x (readline))) '(1 2)))", "(if (== (readline) \"\") (println \"empty\") (println \"more\"))",
                          "(println (evalstr \"(readline)\"))"][k])
        if rng.random() < 0.15:
            parts.append(rng.choice(["(no-such-function (readline))", "(/ 1 0)", "(readline 1)"]))
        codes.append(" ".join(parts))
    return Case(codes, inp=inp)


def go():
    c = Check("P39", rule="several evaluations reading lines in different ways from a generated input (empty lines, long lines up to 6000 characters, blanks, carriage returns, bytes above 127, with and without final line end); the real program reads the same way from standard input")
    c.compare(generate(make, c.n(3000), c.label("read")), kind="read")
    c.compare(generate(big.inputs, c.n(120), c.label("big inputs")), kind="big")
    # the program itself, reading its standard input
    rng = c.rng("cli")
    jobs, exp = [], []
    for i in range(c.n(60, 400)):
        lines = [line(rng) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
        inp = "\n".join(lines) + rng.choice(["\n", ""])
        n = rng.randint(1, len(lines) + 3)
        code = "(do (def n 0) (while (< n %d) (do (setf n (+ n 1)) (println n (readline)))))" % n
        jobs.append((["-e", code], inp.encode("latin-1"), None))
        ref, _ = R.run_ref([code], inp=inp)
        exp.append(ref[0]["o"])
    for job, e, r in zip(jobs, exp, runner.run_cli(build.build_cli(), jobs)):
        c.saw(("cli", job), {"stdin": job[1].decode("latin-1")[:200], "code": job[0][1]})
        if r["out"].rstrip("\n") != e.rstrip("\n") or r["rc"] != 0:
            c.violation("stdin:" + chk.hashlib.md5(repr(job).encode()).hexdigest()[:10], "standard input: output %r, expected %r (status %s)" % (chk.clip(r["out"]), chk.clip(e), r["rc"]), {"job": repr(job), "result": r})
    c.finish()


if __name__ == "__main__":
    main(go)
