"""Common parts of the checks: case counts, parallel generation, comparison with the reference, verdicts, evidence."""
import argparse, hashlib, json, multiprocessing as mp, os, random, re, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, runner
import refinterp as R

VERIF = os.path.dirname(HERE)
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    """(key, text) of the listed findings of a property"""
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN, encoding="utf-8") as fh:
            for ln in fh:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln)
                if m and m.group(1) == pid:
                    out.append((m.group(2), m.group(3).strip()))
    return out


class Case:
    """one workload item: programs evaluated one after another in one environment"""
    __slots__ = ("codes", "flags", "module", "inp", "files", "note", "ref", "err", "steps", "calls")

    def __init__(self, codes, flags="", module="main", inp="", files=None, note=None):
        self.codes = [codes] if isinstance(codes, str) else list(codes)
        self.flags, self.module, self.inp, self.files, self.note = flags, module, inp, files, note
        self.ref = self.err = None
        self.steps = self.calls = 0

    def req(self):
        return runner.ev(*self.codes, flags=self.flags, module=self.module, inp=self.inp)

    def show(self):
        return {"codes": self.codes, "flags": self.flags, "module": self.module, "input": self.inp, "files": self.files, "note": self.note}


def _predict(case, libpath=""):
    try:
        case.ref, it = R.run_ref(case.codes, module=case.module, inp=case.inp, files=case.files, flags=case.flags, libpath=libpath)
        case.steps, case.calls = it.total + it.steps, it.fncalls
    except R.Unsupported as e:
        case.err = "unsupported: " + str(e)
    except R.OutOfSteps:
        case.err = "too many steps"
    return case


_MAKE = None
_ARGS = None


def _job(span):
    lo, hi, predict = span
    out = []
    for i in range(lo, hi):
        c = _MAKE(random.Random("%s/%d" % (_ARGS, i)), i)
        if c is None:
            continue
        for x in c if isinstance(c, list) else [c]:
            if predict:
                _predict(x)
            out.append(x)
    return out


def generate(make, n, label, predict=True, jobs=None):
    """make(rng, i) -> Case or list of Cases; runs in parallel processes, deterministic by label"""
    global _MAKE, _ARGS
    _MAKE, _ARGS = make, label
    jobs = jobs or min(8, os.cpu_count() or 4)
    step = max(1, min(200, (n + jobs * 4 - 1) // (jobs * 4)))
    spans = [(i, min(n, i + step), predict) for i in range(0, n, step)]
    if jobs == 1 or n < 16:
        parts = [_job(s) for s in spans]
    else:
        with mp.get_context("fork").Pool(jobs) as pool:
            parts = pool.map(_job, spans, chunksize=1)
    return [c for p in parts for c in p]


def same(ref, real, value=True, out=True, where=True, msg=True, text=True, stack=False):
    """None or what differs between predicted and observed evaluation"""
    if ref["k"] == "ok":
        if real["k"] != "ok":
            return "expected value %s, observed %s" % (ref["v"], brief(real))
        if value and nn(ref["v"]) != nn(real["v"]):
            return "value %s, expected %s" % (real["v"], ref["v"])
        if value and text and ref.get("s") is not None and nn(ref["s"]) != nn(real["s"]):
            return "text of value %r, expected %r" % (real["s"], ref["s"])
    else:
        if real["k"] != "lisp":
            return "expected an error (%s), observed %s" % (ref.get("m"), brief(real))
        if where and ref["line"] is not None and str(ref["line"]) != real["line"]:
            return "error reported for line %s, expected %s" % (real["line"], ref["line"])
        if where and ref["mod"] is not None and ref["mod"] != real["mod"]:
            return "error reported for module %s, expected %s" % (real["mod"], ref["mod"])
        if msg and ref["m"] is not None and ref["m"] != real["m"]:
            return "error message %r, expected %r" % (real["m"], ref["m"])
    if out and nn(ref["o"]) != nn(real["o"]):
        return "output %r, expected %r" % (clip(real["o"]), clip(ref["o"]))
    return None


def nn(s):
    """the sign of not-a-number is not specified"""
    return s.replace("-nan", "nan") if "-nan" in s else s


def clip(s, n=400):
    return s if len(s) <= n else s[:n] + "..."


def brief(r):
    if r["k"] == "ok":
        return "value " + clip(r["v"])
    if r["k"] == "lisp":
        return "error %r (line %s, module %s)" % (r["m"], r["line"], r["mod"])
    return "%s: %s" % (r["k"], r.get("m"))


class Check:
    def __init__(self, pid, level="exploration", rule=""):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
        ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
        ap.add_argument("--scale", type=float, default=1.0)
        a = ap.parse_args()
        self.pid, self.level, self.rule = pid, level, rule
        self.tier = "thorough" if a.tier == "thorough" else "quick"
        try:
            self.seed = int(a.seed)
        except ValueError:
            self.seed = int(hashlib.sha256(a.seed.encode()).hexdigest()[:8], 16)
        self.scale = a.scale
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.stats = {}
        self.bad = {}
        self.known_hit = set()
        self.assumptions = []
        self.skipped = {}
        self.inconclusive = 0

    # ------------------------------------------------------------ sizes and randomness
    def n(self, quick, thorough=None):
        k = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 12)
        return max(1, int(k * self.scale))

    def label(self, what):
        return "%s-%s-%d" % (self.pid, what, self.seed)

    def rng(self, what):
        return random.Random(self.label(what))

    def exe(self, variant="asan"):
        return build.build(variant)

    # ------------------------------------------------------------ bookkeeping
    def stat(self, name, k=1):
        self.stats[name] = self.stats.get(name, 0) + k

    def saw(self, key, sample=None, nontrivial=True):
        self.evaluations += 1
        if nontrivial:
            self.distinct.add(hashlib.md5(repr(key).encode("utf-8", "replace")).digest()[:10])
        if sample is not None and (len(self.samples) < 4 or (len(self.samples) < 8 and self.evaluations % 997 == 0)):
            self.samples.append(sample)

    def violation(self, key, text, replay):
        """key identifies what fails; replay: JSON-able"""
        for k, what in known_findings(self.pid):
            if k == key:
                self.known_hit.add((k, what))
                return
        if key not in self.bad:
            self.bad[key] = (text, replay)

    # ------------------------------------------------------------ execution
    def crash(self, res, show, key=None):
        """handles a request which ended the process; True if it did"""
        if res is None:
            self.stat("not run")
            return True
        if res.rec is None or res.crash:
            s = runner.crash_summary(res)
            k = "crash:" + hashlib.md5(re.sub(r"\d+", "#", s).encode()).hexdigest()[:10]
            self.violation(key or k, "the process did not survive: " + s, {"request": show, "stderr": (res.stderr or "")[-6000:]})
            return True
        return False

    def run(self, reqs, variant="asan", **kw):
        return runner.run(self.exe(variant), reqs, **kw)

    def compare(self, cases, variant="asan", kind="", per_case=None, **fields):
        """runs predicted cases and compares every observation with the prediction"""
        todo = []
        for c in cases:
            if c.err:
                self.skipped[c.err] = self.skipped.get(c.err, 0) + 1
            else:
                todo.append(c)
        if len(todo) < len(cases) * 0.5:
            raise runner.HarnessError("most generated cases are outside of the model: %s" % sorted(self.skipped.items(), key=lambda x: -x[1])[:5])
        res = self.run([c.req() for c in todo], variant, files=files_of(todo))
        for c, r in zip(todo, res):
            if self.crash(r, c.show()):
                continue
            self.saw((c.codes, c.flags, c.inp), {"codes": c.codes, "observed": [brief(x) for x in r.r]}, nontrivial=c.steps > 1 or len(c.codes) > 1)
            self.stat("steps predicted", c.steps)
            for j, (x, y) in enumerate(zip(c.ref, r.r)):
                self.stat("values" if x["k"] == "ok" else "errors")
                if "m" in c.flags:   # a debugger is attached: errors which leave a function are announced in the output
                    y["o"] = re.sub(r"EXCEPTION: [^\n]*\n", "", y["o"])
                d = same(x, y, **fields)
                if d:
                    self.violation((kind or "diff") + ":" + key_of(c), "evaluation %d: %s\n    %s" % (j + 1, d, "\n    ".join(clip(k, 1500) for k in c.codes[max(0, j - 7):j + 1])),
                                   {"case": c.show(), "predicted": c.ref, "observed": r.r})
                    break
            if per_case:
                per_case(c, r)
        return res

    # ------------------------------------------------------------ verdict
    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if self.skipped:
            self.stats["outside of the model"] = sum(self.skipped.values())
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                           "samples": json.loads(json.dumps(self.samples[:8], default=str)), "observed": self.stats},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.bad)}
        if self.known_hit:
            ev["coverage"]["known_findings"] = sorted(w for k, w in self.known_hit)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        with open(path + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(path + ".tmp", path)
        for k, what in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        if self.bad:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (key, (text, replay)) in enumerate(sorted(self.bad.items())[:6]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i + 1))
                with open(p, "w") as fh:
                    json.dump({"property": self.pid, "seed": self.seed, "key": key, "what": text, "replay": replay}, fh, indent=1, default=str)
                print("".join(ch if ch == "\n" or 32 <= ord(ch) < 127 else "\\x%02x" % ord(ch) for ch in "%s: %s" % (key, text)))
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("%d distinct violations, %d evaluations" % (len(self.bad), self.evaluations))
            sys.exit(1)
        if self.evaluations == 0:
            print("nothing was observed", file=sys.stderr)
            sys.exit(3)
        print("%s held on %d evaluations (%d distinct, %.1f s) %s" % (self.pid, self.evaluations, len(self.distinct), time.time() - self.t0,
                                                                   " ".join("%s=%s" % kv for kv in sorted(self.stats.items()))))
        sys.exit(0)


def files_of(cases):
    """files for a batch of cases, by their numbers"""
    def get(ids):
        out = {}
        for i in ids:
            out.update(cases[i].files or {})
        return out
    return get


def key_of(c):
    return hashlib.md5(json.dumps([c.codes, c.flags, c.inp]).encode()).hexdigest()[:10]


def main(f):
    try:
        f()
    except SystemExit:
        raise
    except build.BuildError as e:
        print(str(e), file=sys.stderr)
        sys.exit(4)
    except BaseException:
        traceback.print_exc()
        sys.exit(3)
