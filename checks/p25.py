import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, Case, generate, main
import chk, wl
import big

import refinterp as R


def content(rng):
    k = rng.random()
    if k < 0.15:
        return ""
    if k < 0.5:
        return wl.text(rng)
    if k < 0.8:
        return "".join(rng.choice(["\n", "\r", "\r\n", "\t", "\0", "\x01", "\x1a", "\x7f", "\u00e4", "\u00ff", "\u00fe", "a", "\\", '"', ";", "\n\n", " "]) for _ in range(rng.randint(1, 20)))
    return wl.text(rng, 3, "abc\n") * rng.choice([30, 400, 1365, 1366, 3000])


def make(rng, i):
    pre = "f%d_" % i
    names = [pre + x for x in ("a", "b.txt", "c d", "e.fuel")] + ["dir%d/x" % i]
    files = {"dir%d/keep" % i: "kept"}
    for n in names:
        if rng.random() < 0.3:
            files[n] = content(rng)
    codes = []
    for _ in range(rng.randint(2, 6)):
        parts = []
        for _ in range(rng.randint(1, 4)):
            n = rng.choice(names + ["nodir/q%d" % i, pre + "missing"])
            q = wl.lit(n)
            k = rng.randint(0, 11)
            if k <= 3:
                if n.endswith("missing"):
                    n = names[0]
                    q = wl.lit(n)
                parts.append("(println (File-WriteAllText %s %s))" % (q, rng.choice([wl.lit(content(rng)), wl.lit(content(rng)), wl.value(rng)])))
            elif k <= 6:
                parts.append("(def t (File-ReadAllText %s)) (println (len t) t)" % q)
            elif k == 7:
                parts.append("(println (File-Exists %s))" % q)
            elif k == 8:
                parts.append("(println (File-WriteAllText %s (string (File-ReadAllText %s) %s)))" % (q if not n.endswith("missing") else wl.lit(names[1]), wl.lit(rng.choice(names)), wl.lit(content(rng))))
            elif k == 9:
                parts.append("(def s \"xy\") (def n 0) (while (< n %d) (do (setf s (string s s)) (setf n (+ n 1)))) (println (File-WriteAllText %s s) (== s (File-ReadAllText %s)))" % (rng.choice([3, 8, 11, 12, 15]), wl.lit(names[0]), wl.lit(names[0])))
            elif k == 10:
                parts.append(rng.choice(["(File-WriteAllText %s)" % q, "(File-ReadAllText)", "(File-Exists %s 1)" % q, "(File-WriteAllText %s (no-fn))" % q, "(println (File-WriteAllText \"/dev/full\" \"abc\"))"]))
            else:
                parts.append("(println (map File-Exists (list %s)))" % " ".join(wl.lit(x) for x in names))
        codes.append(" ".join(parts))
    return Case(codes, files=files)


def go():
    c = Check("P25", rule="histories of writing, reading, copying and testing over five files in two directories (contents with all kinds of bytes, up to 65536 characters), missing directories and a full device; every answer and the final content of all files compared with a model")
    cases = generate(make, c.n(1600), c.label("files"))
    for k in cases:
        if not k.err:
            _, it = R.run_ref(k.codes, files=k.files)
            k.note = dict(it.files)
    todo = [k for k in cases if not k.err]

    listing = {}

    def collect(box, i):
        if box.dir not in listing:
            listing[box.dir] = {}
            for root, _, names in os.walk(box.work):
                for n in names:
                    rel = os.path.relpath(os.path.join(root, n), box.work)
                    top = rel.split("/")[0]
                    listing[box.dir].setdefault(top[3:] if top.startswith("dir") else top.split("_")[0][1:], []).append(rel)
        out = {}
        pre = next(x for x in todo[i].files if x.endswith("/keep")).split("/")[0][3:]
        for rel in listing[box.dir].get(pre, []):
            with open(os.path.join(box.work, rel), "rb") as fh:
                out[rel] = fh.read().decode("latin-1")
        return out
    res = c.run([k.req() for k in todo], files=chk.files_of(todo), collect=collect)
    for k, r in zip(todo, res):
        show = {"codes": k.codes, "files": {a: chk.clip(b, 200) for a, b in k.files.items()}}
        if c.crash(r, show):
            continue
        c.saw(k.codes, {"codes": [chk.clip(x, 300) for x in k.codes], "observed": [chk.clip(chk.brief(x), 200) for x in r.r]})
        c.stat("files checked", len(k.note))
        for j, (x, y) in enumerate(zip(k.ref, r.r)):
            d = chk.same(x, y)
            if d:
                c.violation("answer:" + chk.key_of(k), "evaluation %d: %s\n   %s" % (j + 1, d, "\n   ".join(chk.clip(z, 600) for z in k.codes[:j + 1])), {"case": k.show(), "predicted": k.ref, "observed": r.r})
                break
        else:
            if r.files != k.note:
                diff = [n for n in set(r.files) | set(k.note) if r.files.get(n) != k.note.get(n)]
                c.violation("disk:" + chk.key_of(k), "content of %s differs from what was written: %r, expected %r" % (diff[0], chk.clip(r.files.get(diff[0], "<absent>"), 100), chk.clip(k.note.get(diff[0], "<absent>"), 100)), {"case": k.show()})
    c.compare(generate(big.written, c.n(60), c.label("big written")), kind="big")
    c.finish()


if __name__ == "__main__":
    main(go)
