import sys, os, re, json
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
from chk import Check, Case, generate, main
import chk, wl, runner

CAT = json.load(open(os.path.join(os.path.dirname(HERE), "lib", "builtins.json")))
CAT["_unquote"] = ["(unquote expr)", "Special form for unquoting expressions in quasiquote functions.", True]
CAT["_unquotesplicing"] = ["(unquotesplicing expr)", "Special form for unquotingsplicing expressions in quasiquote functions.", True]
LINE = "-" * 49
# accept any number of arguments
LENIENT = {"%", "mod", "cons", "break", "copyright", "date-time", "fuel", "gettrace", "help", "htmldoc", "nop", "platform", "vars", "version"}
ENTRY = re.compile(r"<hr><br><b>(.*?)</b>( \[special form\])?<br><br><code>Syntax: (.*?)</code><br><br>(.*?)<br><br>\n\n", re.S)


def title(sig):
    if not sig:
        return "???"
    w = sig[1:-1].split(" ", 1)
    return w[0] + (" " if len(w) > 1 else "")


def block(sig, doc, special):
    return LINE + "\n\n" + title(sig) + (" [special form]" if special else "") + "\n\nSyntax: " + sig + "\n\n" + (doc or ">not available<") + "\n\n\n"


NAMES = ["f", "fi", "first2", "g", "my-fn", "x", "len", "car", "trim", "dict-x", "a", "zz", "lista", "Math-Sin", "ma", "printlnx", "slice"]
PARTS = ["f", "fi", "fir", "car", "dict", "-", "=", "Math", "a", "zz", "x", "e", "ma", "str", "list", "tr", "n", "first", "lon", "+", "1", "println", "###", "macro", "_", "?", "z", "q-none", "T", "m-", "l", "de", "def", "s"]


def make(rng, i):
    """a history of definitions and lookups; predicted texts of the lookups by a table of functions"""
    g = {n: tuple(v) for n, v in CAT.items()}
    mods = {}
    codes, want = [], []
    files = {}
    pre = "c%d/" % i
    huge = i % 25 == 0
    texts = []

    def defn(table, kw=None):
        n = rng.choice(NAMES)
        par = rng.choice(["", "x", n, "x y", "a b c", "x . r", "long-parameter-name"])
        if huge:
            n = rng.choice(NAMES) + (str(rng.randint(0, 300)) if rng.random() < 0.8 else "n" * rng.randint(20, 400))
            par = " ".join("p%d" % q for q in range(int(2 * 40 ** rng.random()))) if rng.random() < 0.4 else par
        com = [";" * rng.randint(1, 2) + rng.choice([" does something", " x", "text", " Returns the \"value\" (of x)", "", " a 'b' `c`", "     blanks  "]) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if huge and rng.random() < 0.4:
            com.append("; " + rng.choice(["x", "word ", "(", "a\"b"]) * int(20 * 100 ** rng.random()) + "e")
        kw = kw or rng.choice(["defn", "defn", "gdefn"])
        t = "".join(x + "\n" + rng.choice(["", "", "\n", "  "]) for x in com) + "(%s %s (%s)%s%s)" % (kw, n, par, rng.choice([" ", "\n", " ; inner\n"]), rng.choice(["1", "(+ 1 2)", "'()", "(%s 1)" % n, "'(defn %s (x))" % n]))
        table[n] = ("(%s%s)" % (n, " " + par if par else ""), com[-1] + "\n" if com else "", False)
        return t

    def lookup(cands, scope, whole=True):
        args = []
        res = ""
        fn = rng.choice(["doc", "doc", "searchdoc"])
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            p = rng.choice(cands)
            if huge and rng.random() < 0.25:
                p = rng.choice(["", "", "n", "a", "e"])
                args.append("\"%s\"" % p)
            elif p in ("1",):
                args.append("1")
            else:
                args.append(rng.choice(["'" + p, "\"%s\"" % p]))
            for tab in [scope] + [mods[k] for k in sorted(mods)]:
                for n in sorted(tab, key=lambda s: s.encode("latin-1")):
                    if tab[n] is not None and (n.startswith(p) if fn == "doc" else p in n):
                        res += block(*tab[n])
        return "(%s %s)" % (fn, " ".join(args)), res + "\n"
    every = sorted(CAT)
    for j in range(rng.randint(3, 9)):
        k = rng.randint(0, 14)
        cands = PARTS + rng.sample(every, 8) + [rng.choice(every)[:rng.randint(1, 4)] for _ in range(4)]
        if k < 3:
            if texts and rng.random() < 0.25:
                x, tab = rng.choice(texts)      # the same text once more
            else:
                tab = {}
                x = defn(tab)
                for _ in range(rng.randint(0, 2) if not huge else rng.randint(5, 120)):
                    y = defn(tab)
                    w = rng.choice(NAMES)
                    x += rng.choice(["\n", "\n", "", " ", "\n(list '%s)" % w, " (def v-%s '(defn %s (x)))" % (w, w), "\n'(%s %s)\n" % (w, w) if False else "\n"]) + y
                texts.append((x, tab))
            codes.append(x)
            want.append(None)
            g.update(tab)
            for y in re.findall(r"\(def (v-\S+) ", x):
                g[y] = None
        elif k == 3 and rng.random() < 0.4:
            n = rng.choice(NAMES)           # functions without name
            codes.append("%s(def %s (%s (%s) 1))" % (rng.choice(["", "; comment\n"]), n, rng.choice(["lambda", "fn"]), rng.choice(["", "x", "x y"])))
            want.append(None)
            g[n] = ("", "", False)
        elif k == 3:
            n, m = rng.choice(NAMES), rng.choice(every)
            if g.get(m) is not None and "macro" not in m:
                codes.append("(def %s %s)" % (n, m))
                want.append(None)
                g[n] = g[m]
        elif k == 4:
            n = rng.choice(NAMES)
            codes.append("(delvar '%s)" % n)
            want.append(None)
            g.pop(n, None)
        elif k == 5:
            n = rng.choice(NAMES)
            codes.append("(def %s 5)" % n)
            want.append(None)
            g[n] = None
        elif k == 6:
            f = pre + "m%d.fuel" % rng.randint(1, 2)
            if f not in files:
                tab = {}
                files[f] = "\n".join(defn(tab, "defn") for _ in range(rng.randint(1, 3))) + "\n"
                codes.append("(import \"%s\")" % f)
                want.append(None)
                mods[f] = tab
        elif k == 7:
            loc = {}
            d = "\n".join(defn(loc, "defn") for _ in range(rng.randint(0, 2)))
            loc = {n: (v[0], "", v[2]) for n, v in loc.items()}   # comments count for definitions outside of functions
            t, w = lookup(cands, loc)
            codes.append("(apply (lambda () (do (rval 1) %s %s)) '())" % (d, t))
            want.append(w)
        elif k == 8 and all(n in CAT or not n for n in g):
            codes.append("(doc)")
            want.append("".join(block(*g[n]) + "\n" for n in sorted(g, key=lambda s: s.encode())) if not any(g[n] is None or g[n] != tuple(CAT[n]) for n in g) and len(g) == len(CAT) else None)
        elif k == 8 or k == 10:
            codes.append("(htmldoc)")
            bu = {tuple(v): v[0] for v in CAT.values()}
            want.append(("html", [bu[tuple(g[n])] for n in sorted(g, key=lambda s: s.encode()) if g[n] is not None and tuple(g[n]) in bu]))
        elif k == 9:
            codes.append("(%s %s)" % (rng.choice(["doc", "searchdoc"]), rng.choice(["-77", "2.5", "'(a b)", "(list)", "nil", "#t", "first", "\"no such name\"", "(lambda (x) x)", "(make-dict)"])))
            want.append("\n")
        else:
            t, w = lookup(cands, g)
            codes.append(t)
            want.append(w)
    c = Case(codes, files=files, note=want)
    return c


def go():
    c = Check("P29", rule="the tables of builtins (names, signatures, documentation, special forms) from html list, full list, help and catalogue; histories of definitions (with and without comments), redefinitions, aliases, deletions, imports and lookups by names, parts, several arguments and other kinds of values at top level and inside of functions, compared with a table of functions; number of arguments of the signature against the accepted numbers; each lookup without output, definitions or effect")
    h, d, l = c.run([runner.ev("(htmldoc)"), runner.ev("(doc)"), runner.ev("(help)")])
    text = h.r[0]["s"]
    got = {}
    order = []
    entry = {}
    for m in ENTRY.finditer(text):
        sig = m.group(3)
        got[sig] = (m.group(4), bool(m.group(2)))
        order.append(m.group(0))
        entry[sig] = m.group(0)
        c.saw(("entry", sig), {"entry": sig})
        if m.group(1) != title(sig):
            c.violation("title:" + sig, "the html entry of %s has the title %r" % (sig, m.group(1)), m.group(0))
    for n, (sig, doc, sp) in CAT.items():
        if sig not in got:
            c.violation("html:" + n, "the html list has no entry for %s %s" % (n, sig), text[:500])
        elif got[sig] != (doc, sp):
            c.violation("html:" + n, "the html list describes %s as %s, expected %s" % (sig, got[sig], (doc, sp)), text[:500])
        elif not doc.strip():
            c.violation("nodoc:" + n, n + " has no documentation", n)
    if len(order) != len(CAT) or not text.endswith("</body>\n</html>\n") or not text.startswith("<html>"):
        c.violation("html", "the html list has %d entries for %d builtins, ends with %r" % (len(order), len(CAT), text[-60:]), text[:2000])
    names = l.r[0]["o"].split("\n")
    for n in CAT:
        c.saw(("help", n))
        if names.count(n) != 1:
            c.violation("help:" + n, "help lists %s %d times" % (n, names.count(n)), names)
    extra = [n for n in names[1:] if n and n not in CAT and not n.startswith("###")]
    if extra:
        c.violation("help-extra", "help lists %s" % extra, names)
    want = "".join(block(*CAT[n]) + "\n" for n in sorted(CAT, key=lambda s: s.encode()))
    if d.r[0]["s"] != want:
        c.violation("doc-all", "the full documentation is not the list of all blocks", {"observed": d.r[0]["s"], "expected": want})

    # number of arguments
    rng = c.rng("arity")
    reqs, meta = [], []
    for n, (sig, doc, sp) in sorted(CAT.items()):
        if sp or "..." in sig or "[" in sig or "(" in sig[1:] or n in LENIENT or n in ("sleep", "readline"):
            continue
        k0 = len(sig[1:-1].split()) - 1
        for k in range(k0 + 4):
            for _ in range(3):
                a = " ".join(rng.choice(["1", "2.5", "\"t\"", "'(1 2)", "first", "nil", "(make-dict)", "'s", "#t"]) for _ in range(k))
                reqs.append(runner.ev("(%s %s)" % (n, a)))
                meta.append((n, k0, k, a))
    for (n, k0, k, a), r in zip(meta, c.run(reqs)):
        if c.crash(r, {"code": "(%s %s)" % (n, a)}):
            continue
        o = r.r[0]
        c.saw(("arity", n, k, a))
        bad = o["k"] == "lisp" and "Bad argument count" in o["m"]
        if bad and k == k0 and n in ("apply", "map", "reduce", "foreach"):
            continue                # the count of the called function may be wrong
        if bad != (k != k0):
            c.violation("arity:%s:%d" % (n, k), "%s is documented with %d arguments, but called as (%s %s) gives %s" % (n, k0, n, a, chk.brief(o)), o)

    # histories
    cases = generate(make, c.n(3000, 30000), c.label("histories"), predict=False)
    cases = [x for x in cases if x.codes]
    res = c.run([x.req() for x in cases], files=chk.files_of(cases))
    for x, r in zip(cases, res):
        if c.crash(r, x.show()):
            continue
        for j, (code, w, o) in enumerate(zip(x.codes, x.note, r.r)):
            c.saw((tuple(x.codes[:j + 1]),), {"code": code, "text": chk.clip(o.get("s") or "")}, nontrivial=w is not None)
            if w is None:
                if o["k"] != "ok" and "delvar" not in code:
                    c.violation("history:" + chk.key_of(x), "%s gives %s" % (code, chk.brief(o)), x.show())
                    break
                continue
            if w[:1] == ("html",):
                c.stat("html lists")
                now = [m.group(0) for m in ENTRY.finditer(o.get("s") or "")]
                exp = [entry.get(y) for y in w[1]]
                if o["k"] != "ok" or o["o"] or now != exp or ENTRY.sub("", o["s"]) != ENTRY.sub("", text):
                    c.violation("htmllist:" + chk.key_of(x), "the html list after\n  %s\n  gives %s, missing %s, surplus %s" % ("\n  ".join(x.codes[:j]), chk.brief(o)[:80], [y for y in exp if y not in now][:3], [y for y in now if y not in exp][:3]), dict(x.show(), observed=o))
                    break
                continue
            c.stat("lookups")
            c.stat("entries found", w.count(LINE))
            if o["k"] != "ok" or o["s"] != w or o["o"]:
                c.violation("lookup:" + chk.key_of(x), "%s after\n  %s\n  gives %s\n  %r\n expected %r, output %r, files %s" % (code, "\n  ".join(x.codes[:j]), chk.brief(o)[:80], chk.clip(o.get("s") or "", 900), chk.clip(w, 900), o["o"][:300], x.files), dict(x.show(), expected=w, observed=o))
                break

    # lookups have no effect: the listing of variables is the same before and after
    reqs, meta = [], []
    for k in range(c.n(150, 1500)):
        rr = c.rng("effect%d" % k)
        x = make(rr, 100000 + k)
        looks = [y for y, w in zip(x.codes, x.note) if w is not None]
        defs = [y for y, w in zip(x.codes, x.note) if w is None and "import" not in y and "println" not in y and "list" not in y]
        if not looks:
            continue
        codes = defs + ["(vars)"] + looks + ["(vars)"]
        reqs.append(runner.ev(*codes))
        meta.append((codes, len(defs)))
    for (codes, n), r in zip(meta, c.run(reqs)):
        if c.crash(r, {"codes": codes}):
            continue
        a, b = r.r[n], r.r[-1]
        c.saw(("effect", tuple(codes)))
        if a["k"] != b["k"] or a.get("s") != b.get("s") or a["o"] != b["o"]:
            c.violation("effect:" + chk.key_of(Case(codes)), "lookups changed the variables:\n%s\n  to\n%s\n by %s" % (a["o"] or a.get("s"), b["o"] or b.get("s"), codes[n + 1:-1]), {"codes": codes})
    c.finish()


if __name__ == "__main__":
    main(go)
