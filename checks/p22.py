import sys, os, re, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, gen, runner, random
import big
import p01, p02, p20, p30

FILES = dict(p20.FILES, **p30.FILES)
PROMPT = "FUEL(isp)-DBG> "
ANN = re.compile(r"EXCEPTION: [^\n]*\n")
ANNSTOP = re.compile(r"EXCEPTION: [^\n]*\n--> [^\n]*\n" + re.escape(PROMPT))
TRACE = re.compile(r"--> [^\n]*\n")


def calm(x):
    return not p01.endless(x) and not re.search(r"while|tickcount|date-time|File-Write|\(break|readline|\bhelp\b|EXCEPTION", x)


def hostile(rng, i):
    """histories without loops, of all builtins and argument kinds; not predicted"""
    codes = [x for fl, x in p20.history(rng)[0] if calm(x)]
    codes += [x for x in (p01.fill(rng, rng.choice(p01.CTX), lambda: p01.call(rng, 1)) for _ in range(rng.randint(1, 8))) if calm(x)]
    return Case([p01.PRE] + codes, files=FILES)


def hist(rng, i):
    c = p02.make(rng, i)
    return Case(c.codes, files=FILES)


def single(rng, i):
    """one program, for the debugger"""
    k = i % 4
    if k == 0:
        x = gen.G(rng, faults=rng.choice([0, 0.03, 0.1]), depth=3).program(rng.randint(2, 7))
    elif k == 1:
        x = "\n".join(p02.make(rng, 1).codes[:rng.randint(2, 6)])
    elif k == 2:
        x = "\n".join(p30.chain(rng, 0).codes)
    else:
        x = "\n".join(x for fl, x in p20.history(rng)[0] if calm(x))
    return Case([x], files=FILES) if not re.search(r"readline|\(break|EXCEPTION|tickcount|date-time|\bhelp\b|File-Write", x) else None


def core(x):
    return {k: v for k, v in x.items() if k not in ("o", "ev", "iv", "steps", "int", "hp", "heap")}


def go():
    c = Check("P22", rule="the same histories plain, traced, observed step by step, both, and (single programs) in the debugger told to run: results, errors with position and call stack, and the program's own output must be equal after removing the observers' lines; trace lines are compared with the model line by line and with the number of observed calls")
    # 1. model: exact traced output
    tr = generate(lambda r, i: Case(p02.make(r, i).codes, files=FILES, flags="t"), c.n(700, 9000), c.label("traced"))
    lines = [0]

    def per_case(case, r):
        lines[0] += sum(len(TRACE.findall(x["o"])) for x in r.r)
    c.compare(tr, kind="trace", per_case=per_case)
    # 2. without a model: plain against observed
    cases = generate(hostile, c.n(900, 12000), c.label("hostile"), predict=False) + generate(hist, c.n(500, 7000), c.label("hist"), predict=False) + generate(lambda r, i: Case(p30.chain(r, i).codes, files=FILES), c.n(300, 4000), c.label("chain"), predict=False)
    cases += [x for x in generate(lambda r, i: big.mixed(r, i), c.n(250, 3000), c.label("big"), predict=False) if not re.search("EXCEPTION", str(x.codes))]
    for x in cases:
        x.files = dict(FILES, **(x.files or {}))
    for x in cases:
        x.flags = ""
    plain = c.run([runner.ev(*x.codes, inp=x.inp) for x in cases], files=chk.files_of(cases))
    for fl in ("t", "m", "tm"):
        obs = c.run([runner.ev(*x.codes, flags=fl, inp=x.inp) for x in cases], files=chk.files_of(cases))
        for x, p, o in zip(cases, plain, obs):
            if c.crash(p, x.show()) or c.crash(o, x.show()):
                continue
            c.saw((x.codes, fl), {"codes": x.codes[-3:], "flags": fl})
            for j, (a, b) in enumerate(zip(p.r, o.r)):
                out = b["o"]
                if "m" in fl:
                    out = ANN.sub("", out)
                n = 0
                if "t" in fl:
                    n = len(TRACE.findall(out))
                    out = TRACE.sub("", out)
                    lines[0] += n
                own = TRACE.sub("", a["o"]) if "t" in fl else a["o"]
                what = None
                if core(a) != core(b):
                    what = "outcome %s, without observation %s" % (chk.brief(b), chk.brief(a)) + ("" if chk.brief(a) != chk.brief(b) else " (position or call stack)")
                elif own != out:
                    what = "own output %r, without observation %r" % (chk.clip(out), chk.clip(own))
                elif fl == "tm" and b["k"] == "ok" and "vars" not in x.codes[j] and own == a["o"] and n != b["steps"] and not re.search("EXCEPTION|error", b["o"]):
                    what = "%d trace lines for %d calls" % (n, b["steps"])
                if what:
                    c.violation("observed:" + fl + ":" + chk.key_of(x), "with flags %s, evaluation %d: %s\n    %s" % (fl, j + 1, what, "\n    ".join(chk.clip(k, 800) for k in x.codes[max(0, j - 4):j + 1])), {"case": x.show(), "flags": fl, "plain": p.r, "observed": o.r})
                    break
    c.stats["trace lines"] = lines[0]
    # 3. the debugger, running
    ds = generate(single, c.n(1500, 16000), c.label("dbg"), predict=False)
    plain = c.run([runner.ev(x.codes[0]) for x in ds], files=FILES)
    reqs = []
    for x, p in zip(ds, plain):
        ok = p is not None and p.rec and p.r[0]["k"] == "ok"
        reqs.append(runner.Req("dbg", "main", ("run\nexit\n" if ok else "run\n" * 400), x.codes[0]))
    for x, p, d in zip(ds, plain, c.run(reqs, files=FILES)):
        if c.crash(p, x.show()) or c.crash(d, x.show()):
            continue
        a, b = p.r[0], d.r[0]
        c.saw((x.codes, "dbg"))
        o = b["o"]
        at = o.find(PROMPT)
        if a["k"] != "ok" and a["o"] == "" and o.startswith("\nException: "):
            at = None       # not even read: no stop
        m = o if at is None else o[at + len(PROMPT):]
        announced = len(ANNSTOP.findall(m))
        m = ANNSTOP.sub("", m)
        if a["k"] == "ok":
            c.stat("debugger runs which end")
            bad = None
            if not m.startswith(a["o"] + "restart program\n"):
                bad = "own output %r, without the debugger %r" % (chk.clip(m), chk.clip(a["o"]))
            elif b["k"] != "ok" or (b["v"] != a["v"] and b["v"] != "0"):
                bad = "result %s, without the debugger %s" % (chk.brief(b), chk.brief(a))
        else:
            c.stat("debugger runs which fail")
            exp = a["o"] + "\nException: EXCEPTION: " + a["m"] + "\n\nStack:\n<TODO>\n" + PROMPT
            bad = None if m == exp else "own output and error %r, without the debugger %r" % (chk.clip(m), chk.clip(exp))
        if bad:
            c.violation("debugger:" + chk.key_of(x), bad + ": " + chk.clip(x.codes[0], 1500), {"case": x.show(), "plain": a, "debugger": b})
    c.finish()


if __name__ == "__main__":
    main(go)
