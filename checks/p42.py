import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from chk import Check, main
import chk, build, runner
import calendar, datetime, re, shutil, tempfile, time

ZONES = ["UTC", "UTC", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "<-11>11", "<+14>-14", "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0", "NST3:30NDT,M3.2.0,M11.1.0"]
EPOCH = datetime.datetime(1970, 1, 1)


def instant(rng):
    """seconds since 1970, often at a border of a minute, day, month, year, leap day or change of summer time"""
    k = rng.random()
    y = rng.choice([1970, 1999, 2000, 2004, 2023, 2024, 2025, 2026, 2038, 2039, 2100, 2106, 2200] + [rng.randint(1971, 2250)] * 4)
    if k < 0.3:
        t = datetime.datetime(y, rng.randint(1, 12), 1)
    elif k < 0.45:
        t = datetime.datetime(y, 3, 1)
    elif k < 0.55:
        t = datetime.datetime(y, 1, 1)
    elif k < 0.7:
        t = datetime.datetime(y, rng.choice([3, 4, 10, 11]), rng.randint(1, 28), rng.randint(0, 3))
    elif k < 0.8:
        t = datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23))
    else:
        t = datetime.datetime(y, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
    s = int((t - EPOCH).total_seconds())
    if rng.random() < 0.5:
        s += rng.choice([-1, 0, 1, -3600, 3600, -7200, 86399])
    if rng.random() < 0.04:
        s = rng.choice([0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32])
    return max(s, 100)   # no clock is set to a time before 1970


def local(zone, seconds):
    os.environ["TZ"] = zone
    time.tzset()
    t = time.localtime(seconds)
    return "(%d %d %d %d %d %d)" % (t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec)


def amount(rng):
    return rng.choice([0, 1, 2, 5, 10, 25, 99, 100, 999, 1000, 1001, 1500, 60000, 3600000, 86400000, -1, -500, rng.randint(0, 5000), rng.randint(0, 100000), 2147483647 if rng.random() < 0.2 else 7])


def history(rng):
    """a program of waits and readings, with what each reading must show: ("tick", ms waited) or ("date", ms waited) or ("text", ...)"""
    parts, want, at, n = [], [], 0, 0
    for _ in range(rng.randint(2, 10)):
        k = rng.random()
        if k < 0.4:
            a = amount(rng)
            j = rng.random()
            if j < 0.5:
                parts.append("(sleep %d)" % a)
                at += max(a, 0)
            elif j < 0.65:
                a = abs(a) % 100000
                parts.append("(sleep %d.%d)" % (a, rng.choice([25, 5, 75, 9])))
                at += a
            elif j < 0.8:
                a, r = abs(a) % 1000, rng.randint(0, 4)
                parts.append("(def i %d) (while (> i 0) (do (sleep %d) (setf i (- i 1))))" % (r, a))
                at += a * r
            elif j < 0.9:
                parts.append("(defn nap (ms) (do (sleep ms) (+ 1 ms))) (nap (+ 0 %d))" % a)
                at += max(a, 0)
            else:
                parts.append("(if (< 1 2) (sleep %d) (sleep 12345))" % a)
                at += max(a, 0)
        elif k < 0.6:
            parts.append("(println (list \"tick\" (tickcount)))")
            want.append(("tick", at))
        elif k < 0.75:
            parts.append("(println (list \"date\" (date-time)))")
            want.append(("date", at))
        else:
            n += 1
            a = abs(amount(rng)) % 100000
            parts.append("(def t%d (tickcount)) (sleep %d) (println (list \"took\" (- (tickcount) t%d)))" % (n, a, n))
            at += a
            want.append(("took", a))
    return parts, want, at


def i32(x):
    return (x + 2 ** 31) % 2 ** 32 - 2 ** 31


def go():
    c = Check("P42", rule="the real program runs with a clock of its own (interposed time, clock and wait functions, every reading and wait recorded): dates at borders of minutes, days, months, years, leap days, summer time in several time zones with the clock moving between any two readings; histories of waits and of readings of the tick counter; measured execution times; the answers about version and platform agree with each other and with the program file")
    rng = c.rng("clock")
    holder = tempfile.mkdtemp(prefix="fuelk-", dir="/tmp")
    os.chmod(holder, 0o755)
    try:
        so = os.path.join(holder, "clock.so")
        build._run(["gcc", "-O1", "-fPIC", "-shared", "-fno-builtin", "-D_FORTIFY_SOURCE=0", os.path.join(build.VERIF, "harness/clock.c"), "-o", so, "-lpthread"])
        os.chmod(so, 0o755)
        exe = build.build_cli("plain")
        jobs, what = [], []

        def add(kind, code, start, step, zone, note, opts=()):
            jobs.append((["-e"] + list(opts) + [code], b"", None, {"LD_PRELOAD": so, "FAKE_START": str(start), "FAKE_STEP": str(step), "FAKE_LOG": "clock.log", "TZ": zone}))
            what.append((kind, code, start, step, zone, note))

        for _ in range(c.n(700)):
            zone = rng.choice(ZONES)
            s = instant(rng)
            step = rng.choice([0, 0, 1, 100000, 300000, 999999, 1000000, 1000000, 7000000])
            start = s * 1000000 + rng.choice([0, 1, 500000, 999999]) - rng.choice([0, 0, step])
            add("date", rng.choice(["(println (date-time))", "(println (list-of))", "(do (def d (date-time)) (println d))", "(println (eval '(date-time)))"]).replace("(list-of)", "(map (lambda (x) x) (date-time))"), start, step, zone, None)
        for _ in range(c.n(500)):
            zone = rng.choice(ZONES)
            start = abs(instant(rng)) * 1000000 + rng.randint(0, 999999)
            if rng.random() < 0.3:    # near to the place where the 32 bits of the counter wrap
                ms = rng.randint(300, 600) * 2 ** 32 + rng.choice([0, 2 ** 31])
                start = (ms - rng.choice([0, 1, 10, 1000])) * 1000
            parts, want, at = history(rng)
            add("history", " ".join(parts), start, 0, zone, (want, at), ("-m",) if rng.random() < 0.5 else ())
        t0 = time.time()
        for (kind, code, start, step, zone, note), job, r in zip(what, jobs, runner.run_cli(exe, jobs)):
            show = {"args": job[0], "clock": {k: v for k, v in job[3].items() if k != "LD_PRELOAD"}, "output": r["out"], "log": r["files"].get("clock.log", "")[-3000:]}
            key = kind + ":" + chk.hashlib.md5(repr((job[0], start, step, zone)).encode()).hexdigest()[:10]
            if r["rc"] != 0:
                c.violation(key, "the program ended with status %s: %s" % (r["rc"], chk.clip(r["err"], 600)), show)
                continue
            log = [x.split() for x in r["files"].get("clock.log", "").splitlines()]
            reads = [int(b) for a, b in log if a == "read"]
            waits = [int(b) for a, b in log if a == "wait"]
            c.stat("clock readings seen", len(reads))
            c.stat("waits seen", len(waits))
            c.saw((code, start, step, zone), {"program": code, "zone": zone, "start": start, "step": step, "output": chk.clip(r["out"])})
            if not reads:
                c.stat("no reading of the clock seen")     # the time comes from elsewhere: nothing can be said
                continue
            if kind == "date":
                lo, hi = start // 1000000, (start + step * len(reads)) // 1000000
                if hi - lo > 1000:
                    continue
                ok = {local(zone, t) for t in range(lo, hi + 1)}
                c.stat("dates")
                if r["out"].strip() not in ok:
                    c.violation(key, "date-time in the zone %s between %d and %d seconds after 1970 gives %s, expected %s" % (zone, lo, hi, r["out"].strip(), " or ".join(sorted(ok)[:4])), show)
                continue
            want, at = note
            if at and not waits:
                c.stat("no wait seen")
                if "sleep" in code and len(c.bad) < 50:
                    c.violation(key, "%s waits %d ms, but no wait was seen" % (code, at), show)
                continue
            lines = r["out"].strip("\n").split("\n") if r["out"].strip() else []
            if "-m" in job[0]:
                m = re.fullmatch(r"Execution time = (\S+) s", lines[-1] if lines else "")
                c.stat("execution times")
                if not m or abs(float(m.group(1)) - at / 1000) > 0.0015:
                    c.violation(key, "a run which takes %s s is reported as %r" % (at / 1000, lines[-1:]), show)
                    continue
                lines = lines[:-1]
            got = sum(max(x, 0) for x in waits)
            if got != at * 1000000:
                c.violation(key, "the program has to wait %d ms, but waits %s ms\n    %s" % (at, got / 1e6, code), show)
                continue
            bad = None if len(lines) == len(want) else "%d lines of output, expected %d" % (len(lines), len(want))
            base = None
            for line, (k, v) in zip(lines, want):
                if bad:
                    break
                m = re.fullmatch(r'\("?(\w+)"? (.*)\)', line)
                if not m or m.group(1) != k:
                    bad = "line %r where %s is expected" % (line, k)
                    break
                c.stat("readings compared")
                if k == "date":
                    e = local(zone, (start + v * 1000) // 1000000)
                    if m.group(2) != e:
                        bad = "date-time gives %s, expected %s" % (m.group(2), e)
                elif not re.fullmatch(r"-?\d+", m.group(2)):
                    bad = "%r is no number" % m.group(2)
                elif k == "took":
                    if int(m.group(2)) != i32(v):
                        bad = "%d ms are measured as %s" % (v, m.group(2))
                else:
                    origin = (int(m.group(2)) - v) % 2 ** 32
                    if base is not None and base != origin:
                        bad = "the tick counter does not count milliseconds: %s after %d ms of waiting" % (m.group(2), v)
                    base = origin
            if bad:
                c.violation(key, "%s\n    %s" % (bad, code), show)
    finally:
        shutil.rmtree(holder, ignore_errors=True)
        os.environ.pop("TZ", None)
    # ------------------------------------------------- what the program says about itself
    asked = [["-v"], ["-h"], ["-e", "(println (version))"], ["-e", "(println (fuel))"], ["-e", "(println (copyright))"], ["-e", "(println (platform))"], ["-e", "(println (list (version) (== (version) (version)) (typestr (version)) (len (platform))))"]]
    r = [x["out"] for x in runner.run_cli(exe, [(a, b"", None) for a in asked])]
    with open(exe, "rb") as fh:
        bits = {1: "32bit", 2: "64bit"}[fh.read(5)[4]]
    for a, x in zip(asked, r):
        c.saw(a, {"args": a, "output": chk.clip(x)})
    m = re.match(r"fuel (v\S+) from (\S+) compiled with ", r[0])

    def same(what, cond, show):
        if not cond:
            c.violation("about:" + what, what + ": " + chk.clip(repr(show), 600), {"asked": asked, "answers": r})
    same("the option -v names version and date", m, r[0])
    if m:
        v, d = m.groups()
        same("(version) is the version of the program", r[2].strip() == v, (r[2], v))
        same("(fuel) names version and date of the program", r[3].strip() == "fuel version %s from %s" % (v, d), (r[3], v, d))
        same("the help names version and date of the program", v in r[1] and d in r[1], (r[1][:200], v, d))
        same("(version) is a text, (platform) has three elements", re.sub('"', "", r[6].strip()) == "(%s #t String 3)" % v, r[6])
    same("(copyright) names the licence", re.match(r"Copyright: .*(MIT|GPL|License|license)", r[4]), r[4])
    same("(platform) is the one of the program file", re.sub('"', "", r[5].strip()) == "(%s C++ %s)" % ({"linux": "UNIX"}.get(sys.platform, "UNIX"), bits), (r[5], bits))
    c.finish()


main(go)
