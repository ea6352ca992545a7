import sys, os, re, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
from chk import Check, Case, generate, main
import chk, wl, gen, runner, random

PROMPT = "FUEL(isp)-DBG> "
TAG = "<evalstr>:"
M1 = "(def q 1)\n(defn ff (x)\n (do (def k (* x 2))\n  (+ k\n   q)))\n\n(defn gg (a b)\n (list (ff a)\n  (ff b)))\n"
M2 = "(import \"m1.fuel\")\n(defn hh (x)\n (gg x\n  (- x 1)))\n(hh 1)\n"
M3 = "(def qd 1)\n(defn fd (x)\n (do (def k (* x 2))\n  (+ k\n   qd)))\n\n(defn gd (a b)\n (list (fd a)\n  (fd b)))\n"
FILES = {"m1.fuel": M1, "m2.fuel": M2, "d/m1.fuel": M3}
HC = "(do (setf hc (+ hc 1)) (%s hc %d))"       # a condition which counts how often it was asked


# ------------------------------------------------------------ programs which print nothing and do not fail
def expr(rng, fns, d, v):
    k = rng.randint(0, 13)
    e = lambda: expr(rng, fns, d - 1, v)
    s = lambda: rng.choice([" ", " ", "\n ", "\n\n  ", " ; c\n "])
    if d <= 0 or k < 2:
        return "(%s%s%s%s%s)" % (rng.choice("+-*"), s(), rng.choice(v), s(), rng.choice(v + ["1", "2"]))
    if k < 5 and fns:
        f, n = rng.choice(fns)
        return "(" + f + "".join(s() + (e() if rng.random() < 0.5 else rng.choice(v + ["1", "7"])) for _ in range(n)) + ")"
    if k == 5:
        return "(if (> %s 2)%s%s%s%s)" % (rng.choice(v), s(), e(), s(), e())
    if k == 6:
        return "(do%s%s%s%s)" % (s(), e(), s(), e())
    if k == 7:
        return "(first (map (lambda (w)%s(+ w%s1)) (list 1 2)))" % (s(), s())
    if k == 8:
        return "(reduce (lambda (w r)%s(+ w%sr)) (list 1 2 3) 0)" % (s(), s())
    if k == 9:
        return "(evalstr \"(+ 1%s2)%s(- 3 1)\")" % (s().replace("; c", ""), s().replace("; c", ""))
    if k == 10:
        return "(nth%s1%s(list 1 %s))" % (s(), s(), rng.choice(v))
    if k == 11:
        return "(len (list %s%s%s))" % (e(), s(), rng.choice(v))
    if k == 12:
        return "(apply + (list %s%s3))" % (rng.choice(v), s())
    return "(+ %s%s%s)" % (e(), s(), e())


def program(rng):
    s = lambda: rng.choice(["\n", "\n", "\n\n", " "])
    out = ["(def hc 0) (def i %d)" % rng.randint(0, 3), "(def j 2)"]
    fns = []
    if rng.random() < 0.4:
        out.append("(import \"m1.fuel\")")
        fns += [("ff", 1), ("gg", 2)]
    if rng.random() < 0.25:
        out.append("(import \"m2.fuel\")")
        fns += [("hh", 1)]
    if rng.random() < 0.15:
        out.append("(import \"d/m1.fuel\")")
        fns += [("fd", 1), ("gd", 2)]
    if rng.random() < 0.3:
        out.append("(define-macro-eval mac (a)\n (+ a\n  1))")
        fns.append(("mac", 1))
    for n in range(rng.randint(1, 3)):
        a = rng.choice([["x"], ["x", "y"], ["i"], []])
        out.append("(defn f%d (%s)%s%s)" % (n, " ".join(a), s(), expr(rng, fns, rng.randint(1, 2), a + ["j"])))
        fns.append(("f%d" % n, len(a)))
    if rng.random() < 0.3:
        out.append("(defn r (n)\n (if (> n 0)\n  (+ 1\n   (r (- n 1)))\n  0))")
        fns.append(("r", 1)) if rng.random() < 0.1 else out.append("(r %d)" % rng.randint(1, 4))
    for _ in range(rng.randint(1, 4)):
        k = rng.randint(0, 3)
        if k == 0:
            out.append("(setf i 0) (while (< i %d)%s(do%s(setf i (+ i 1))%s%s))" % (rng.randint(1, 4), s(), s(), s(), expr(rng, fns, 1, ["i", "j"])))
        elif k == 1:
            out.append("(setf i%s%s)" % (s(), expr(rng, fns, 1, ["i", "j"])))
        else:
            out.append(expr(rng, fns, 2, ["i", "j"]))
    return s().join(out) + "\n(+ 1 2)"


def long_program(rng):
    """deep recursion, chains of functions, many lines and many statements"""
    gap = lambda: "\n" * rng.choice([1, 1, 2, 3, rng.randint(1, 120), rng.randint(100, 900) if rng.random() < 0.1 else 1])
    out = ["(def hc 0) (def i 0)", "(def j 2)"]
    d = rng.randint(8, 60)
    k = rng.randint(0, 3)
    if k == 0:
        out += ["(defn r (n i)\n (if (> n 0)\n  (+ 1\n   (r (- n 1)\n     (+ i 1)))\n  (* i\n   1)))", "(r %d 0)" % d]
    elif k == 1:
        d = min(d, 40)
        out += ["(defn c%d (i)%s(%s (+ i 1)))" % (n, gap(), "c%d" % (n + 1)) for n in range(d)] + ["(defn c%d (i)\n (list i\n  j))" % d, "(c0 1)", "(c%d\n 5)" % rng.randint(0, d)]
    elif k == 2:
        out += ["(setf i%s(+ i %d))" % (rng.choice([" ", "\n"]), rng.randint(0, 3)) for n in range(d * 3)]
    else:
        x = "(+ i j)"
        for n in range(d):
            x = rng.choice(["(+ 1\n%s)", "(do %s)", "(list %s)", "(if (> j 0)\n %s)"]) % x if n > 5 else "(+ 1\n %s)" % x
        out += [x, "(defn f () %s)" % x, "(f)"]
    if rng.random() < 0.3:
        out.insert(2, "(import \"m1.fuel\")\n(gg 1 2)")
    return gap().join(out) + gap() + "(+ 1 2)"


def long_dialogue(rng, p, mods):
    n = 1 + p.count("\n")
    ls = p.split("\n")
    full = [k + 1 for k, t in enumerate(ls) if "(" in t] or [1]
    cmds = []
    for _ in range(rng.choice([0, 3, 12, 40])):
        cmds.append("b %s%d%s" % (rng.choice(["", "", "", "m1.fuel:", mods[0] + ":"]), rng.choice(full) if rng.random() < 0.8 else rng.randint(1, n), rng.choice(["", "", " (> i %d)" % 1, " (< i 2)", " (== i 3)", " " + HC % (rng.choice([">", "=="]), 5)])))
        if rng.random() < 0.1:
            cmds.append("list")
    for _ in range(rng.choice([5, 20, 40, 100])):
        k = rng.randint(0, 12)
        if k == 0:
            cmds += [rng.choice(["d", "d", "u"])] * rng.randint(1, 30)
        elif k == 1:
            cmds.append("clear %d" % rng.randint(1, 30))
        elif k == 2:
            cmds.append(rng.choice(["list", "k", "k", "c" if n < 300 else "list"]))
        else:
            cmds += [rng.choice(["s", "s", "s", "v", "o", "r"])] * rng.choice([1, 1, 1, 2, 5, 15])
    return cmds


CONDS = ["(== i 3)", "(> i 1)", "(< i 2)", "(== 1 1)", "(== 1 2)", "#t", "(no-fn)", "(first 5)", "(do 5)", "(rval 5)", "(", "(and (> i 0) (< i 3))", "(do (evalstr \"(+ 1 2)\") (> i 1))", "(not (> i 1))", *[HC % (o, n) for o in (">", "==") for n in (1, 2, 3)]]


def cond(text, val):
    """True / False / None (bad) of a condition where the variable i has the printed value val"""
    num = int(val) if re.fullmatch(r"-?\d+", val) else None
    if text in ("", "(== 1 1)"):
        return True
    if text == "(== 1 2)":
        return False
    if text == "(== i 3)":
        return num == 3
    if text in ("(> i 1)", "(do (evalstr \"(+ 1 2)\") (> i 1))"):
        return None if num is None else num > 1
    if text == "(not (> i 1))":
        return None if num is None else not num > 1
    if text == "(< i 2)":
        return None if num is None else num < 2
    if text == "(and (> i 0) (< i 3))":
        return None if num is None else 0 < num < 3
    return None


def command(rng, nlines, mods):
    k = rng.randint(0, 21)
    line = rng.randint(1, nlines + 1)
    if k < 3:
        return rng.choice(["s", "step"])
    if k < 5:
        return rng.choice(["v", "over"])
    if k < 7:
        return rng.choice(["o", "out"])
    if k < 10:
        return rng.choice(["r", "run"])
    if k < 15:
        c = rng.choice(["", "", "", " " + rng.choice(CONDS)])
        m = rng.choice(["", "", "", "m1.fuel:", "m2.fuel:", "d/m1.fuel:", rng.choice(mods) + ":", "\"m1.fuel\":", "\"" + rng.choice(mods) + "\":", "other:"])
        return rng.choice(["b ", "break ", "b  "]) + m + str(line if "m1" not in m and "m2" not in m else rng.randint(1, 9)) + c
    if k == 15:
        return rng.choice(["clear %d" % rng.randint(1, 4), "clear %d" % rng.randint(1, 2), "clear 0", "clear -1", "clear x", "clear 2x", "clear\ny", "clear\nn", "clear\nmaybe\nyes", "clear\nNO", "clear\n"])
    if k == 16:
        return rng.choice(["list", "t"])
    if k == 17:
        return rng.choice(["k", "stack"])
    if k == 18:
        return rng.choice(["c", "code"])
    if k == 19:
        return rng.choice(["u", "up", "d", "down", "d"])
    if k == 20:
        return rng.choice(["b x", "b 3x", "break ", "b ", "b m1.fuel:", "b \"m1.fuel\"", "b :", "b \"m1.fuel"])
    return rng.choice(["r", "s", "v"])


class Bad(Exception):
    pass


class Sim:
    """debugger as documented, over the calls an independent observer recorded in the same program"""

    def __init__(self, script, module, events, ivals, cmds, files):
        self.script, self.module, self.cmds, self.files = script, module, cmds, files
        self.ev = []
        for e, v in zip(events, ivals):
            p = e.split(":", 4)
            name, mod = self.names(p[4])
            self.ev.append((int(p[0]), int(p[1]), int(p[2]), int(p[3]), name, mod, v))
        self.pos = 0
        self.out = []
        self.bps = []
        self.stops = 0
        self.hits = 0

    def names(self, rest):
        # scope names of this workload contain no ':'
        n, m = rest.split(":", 1)
        return n, m

    def text(self, mod):
        if mod.startswith(TAG):
            return mod[mod.index(":", len(TAG)) + 1:]
        if mod == self.module:
            return self.script
        return self.files[mod]

    def head(self, e):
        line, start, stop, depth, name, mod, v = e
        if start < 0:
            return "do"
        t = self.text(mod)
        h = t[start:stop]
        if line != 1 + t.count("\n", 0, start):
            raise Bad("a call at offset %d of %s is reported for line %d" % (start, mod, line))
        if not re.fullmatch(r"[^\s()\"']+", h):
            raise Bad("the position %d-%d reported for a call in %s is not the function's name but %r" % (start, stop, mod, h))
        return h

    def w(self, s):
        self.out.append(s)

    def read(self):
        if self.pos >= len(self.cmds):
            return ""
        self.pos += 1
        return self.cmds[self.pos - 1]

    def go(self):
        w = self.w
        while True:
            self.stopping, self.pred = True, (lambda d: True)
            frames = []
            self.hc, self.defined = 0, False
            for no, e in enumerate(self.ev):
                line, start, stop, depth, name, mod, v = e
                self.defined = no > 1
                frames = frames[:depth - 1]
                frames.append((name, line, mod))
                if not (self.stopping and self.pred(depth)) and not self.hit(e):
                    continue
                self.stopping = False
                self.stops += 1
                h = self.head(e)
                w("--> %s line=%d start=%d stop=%d module=%s token=%s\n" % (h, line, start, stop, mod, h))
                if not self.loop(frames):
                    return "".join(self.out)
            w("restart program\n")

    def hit(self, e):
        for line, mod, c in self.bps:
            if line == e[0] and (not mod or not e[5] or mod == e[5]):
                n = re.fullmatch(r"\(do \(setf hc .*\((>|==) hc (\d+)\)\)", c)
                if n and self.defined:
                    self.hc += 1
                    r = self.hc > int(n.group(2)) if n.group(1) == ">" else self.hc == int(n.group(2))
                else:
                    r = cond(c, e[6])
                if r is None:
                    self.w("Error: bad condition for line %d: %s\n" % (line, c))
                elif r:
                    self.hits += 1
                    return True
        return False

    def loop(self, frames):
        w = self.w
        cur = len(frames)
        while True:
            w(PROMPT)
            c = self.read().strip()
            if c in ("", "exit", "quit", "q"):
                return False
            if c in ("s", "step"):
                self.stopping, self.pred = True, (lambda d: True)
                return True
            if c in ("v", "over"):
                self.stopping, self.pred = True, (lambda d, n=cur: d <= n)
                return True
            if c in ("o", "out"):
                self.stopping, self.pred = True, (lambda d, n=cur: d <= n - 1)
                return True
            if c in ("r", "run"):
                return True
            if c.startswith("clear"):
                a = c[5:].strip()
                if a:
                    if re.fullmatch(r"[+-]?\d+", a) and 1 <= int(a) <= len(self.bps):
                        del self.bps[int(a) - 1]
                    else:
                        w("Warning: no breakpoint cleared\n")
                else:
                    w("Really delete all breakpoints? (y/n)\n")
                    while True:
                        a = self.read().upper()
                        if a in ("Y", "YES"):
                            self.bps = []
                        if a in ("Y", "YES", "N", "NO", ""):
                            break
            elif c in ("list", "t"):
                w("Breakpoints:\n")
                for i, (line, mod, cn) in enumerate(self.bps):
                    w("#%-3d line=%-5d module=%-25s condition=%s\n" % (i + 1, line, mod, cn))
            elif c in ("k", "stack"):
                for i, (name, line, mod) in enumerate(frames):
                    w("%s%5d name=%-35s lineno=%-4d module=%s\n" % ("-->" if i + 1 == cur else "   ", i + 1, name, line, mod))
                w("\n")
            elif c in ("c", "code"):
                name, line, mod = frames[cur - 1]
                for i, t in enumerate(self.text(mod).split("\n")):
                    b = any(l == i + 1 and (not m or not mod or m == mod) for l, m, cn in self.bps)
                    w("%3d %s %3s %s\n" % (i + 1, "B " if b else "  ", "-->" if line == i + 1 else "", t))
            elif c in ("u", "up"):
                cur = min(len(frames), cur + 1)
            elif c in ("d", "down"):
                cur = max(1, cur - 1)
            elif c.startswith("break ") or c.startswith("b "):
                self.add(c, frames[cur - 1][2])
            elif c in ("b", "break"):
                self.w("Exception: List expected in do\n")
            else:
                raise Bad("harness: command " + c)

    def add(self, c, mod):
        rest = c[c.index(" "):].strip()
        m = re.fullmatch(r'"([^"]*)":(\S+)(?: (.*))?', rest) or re.fullmatch(r'()(\S+)(?: (.*))?', rest)
        if m and (m.group(1) or not rest.startswith('"')):
            if m.group(1):
                mod = m.group(1)
            num = m.group(2)
            if ":" in num and not m.group(1):
                mod, num = num.rsplit(":", 1)
            if re.fullmatch(r"[+-]?\d+", num):
                bp = (int(num), mod, (m.group(3) or "").strip())
                for i, b in enumerate(self.bps):
                    if b[:2] == bp[:2]:
                        self.bps[i] = bp
                        return
                self.bps.append(bp)
                return
        self.w("Warning: no breakpoint set or modified\n")


def go():
    c = Check("P23", rule="random programs (nested calls over several lines, functions, loops, callbacks, macros, evaluated text, modules importing modules) under random dialogues of stepping, breakpoints with modules and conditions, clearing, listing and moving in the call stack, over several restarts; the complete transcript is compared with a simulation of the debugger over the calls which an independent observer recorded in the same program, and every reported position with the program text at that place")
    rng = c.rng("dbg")
    progs = []
    for _ in range(c.n(1500, 20000)):
        mod = rng.choice(["command-line", "prog.fuel", "prog.fuel"])
        p = program(rng)
        cmds = [command(rng, 1 + p.count("\n"), [mod]) for _ in range(rng.randint(1, 40))]
        progs.append((p, mod, "\n".join(cmds) + rng.choice(["", "\nexit\n", "\nq\n", "\n\nr\n"])))

    for _ in range(c.n(160, 2400)):
        mod = rng.choice(["command-line", "prog.fuel"])
        p = long_program(rng)
        progs.append((p, mod, "\n".join(long_dialogue(rng, p, [mod])) + rng.choice(["", "\nexit\n"])))
    # the program's file differs for each dialogue: its own directory
    groups = {}
    for i, (p, mod, cmds) in enumerate(progs):
        progs[i] = (p, mod if mod == "command-line" else "p%d.fuel" % i, cmds.replace("prog.fuel", "p%d.fuel" % i))
    ref = c.run([runner.ev(p, flags="mi", module=mod) for p, mod, cmds in progs], files=FILES)

    def files(ids):
        d = dict(FILES)
        for i in ids:
            if progs[i][1] != "command-line":
                d[progs[i][1]] = progs[i][0]
        return d
    res = c.run([runner.Req("dbg", mod, cmds, p) for p, mod, cmds in progs], files=files)
    for (p, mod, cmds), a, r in zip(progs, ref, res):
        show = {"program": p, "module": mod, "commands": cmds}
        if c.crash(a, show) or c.crash(r, show):
            continue
        x = a.r[0]
        if x["k"] != "ok" or x["o"] or len(x["ev"]) >= 3000:
            c.stat("not usable")
            continue
        sim = Sim(p, mod, x["ev"], x["iv"], cmds.rstrip("\n").split("\n") if cmds.strip("\n") else [""], FILES)
        try:
            exp = sim.go()
        except Bad as b:
            c.violation("position:" + chk.key_of(Case([p])), "%s: %s" % (b, chk.clip(p, 1200)), show)
            continue
        c.saw((p, cmds), {"commands": cmds, "stops": sim.stops})
        c.stat("stops", sim.stops)
        c.stat("breakpoint hits", sim.hits)
        c.stat("calls observed", len(x["ev"]))
        got = r.r[0]["o"]
        if got != exp:
            n = next((i for i, (u, v) in enumerate(zip(got, exp)) if u != v), min(len(got), len(exp)))
            n = max(got.rfind("\n", 0, n), 0)
            c.violation("transcript:" + chk.key_of(Case([p, cmds])), "the dialogue continues with %r, expected %r\n  program: %s\n  commands: %s" % (got[n:n + 300], exp[n:n + 300], chk.clip(p, 1500), cmds.replace("\n", " / ")), dict(show, observed=got, predicted=exp))
    c.finish()


if __name__ == "__main__":
    main(go)
