"""Runs requests through the instrumented driver and collects what it observed.

Every batch runs in a process of an unprivileged user, inside a scratch directory that is created for it and removed
afterwards, so that no executed program can reach anything real.
"""
import json, os, re, resource, select, shutil, signal, subprocess, sys, tempfile, threading, time
import concurrent.futures as cf

UID = 65534


class HarnessError(Exception):
    pass


def esc(s):
    """request field: str of latin-1 code points -> escaped"""
    return s.replace("\\", "\\\\").replace("\t", "\\t").replace("\n", "\\n").replace("\r", "\\r").replace("\0", "\\0")


class Req:
    """kind + fields (the id is filled in by the runner)"""
    __slots__ = ("kind", "fields", "meta", "files")

    def __init__(self, kind, *fields, meta=None):
        self.kind = kind
        self.fields = fields
        self.meta = meta

    def line(self, rid):
        return "\t".join([self.kind, str(rid)] + [esc(str(f)) for f in self.fields]) + "\n"

    def show(self):
        return {"kind": self.kind, "fields": list(self.fields)}


def ev(*codes, flags="", module="main", inp=""):
    return Req("eval", flags, module, inp, *codes)


class Result:
    """rec: the driver's record, or None if the process died or hung while it worked on the request"""
    __slots__ = ("rec", "crash", "hang", "stderr", "files")

    def __init__(self, rec=None, crash=None, hang=False, stderr=""):
        self.rec, self.crash, self.hang, self.stderr = rec, crash, hang, stderr
        self.files = None

    @property
    def r(self):
        return self.rec["r"] if self.rec else []


def _demote():
    try:
        os.setgroups([])
        os.setgid(UID)
        os.setuid(UID)
    except OSError:
        pass


class Sandbox:
    """scratch directory owned by the unprivileged user"""

    def __init__(self, files=None):
        self.dir = tempfile.mkdtemp(prefix="fuelv-", dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.work = os.path.join(self.dir, "work")
        os.mkdir(self.work)
        for name, content in (files or {}).items():
            self.put(name, content)
        try:
            os.chown(self.work, UID, UID)
        except OSError:
            pass

    def put(self, name, content):
        p = os.path.join(self.work, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(content if isinstance(content, bytes) else content.encode("latin-1"))
        for q in (p, os.path.dirname(p)):
            try:
                os.chown(q, UID, UID)
            except OSError:
                pass

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def base_env(extra=None):
    env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TZ": "UTC",
           "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:hard_rss_limit_mb=2500:allocator_may_return_null=0:detect_stack_use_after_return=0:malloc_context_size=12:handle_abort=1",
           "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77:halt_on_error=1",
           "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:die_after_fork=0"}
    sym = shutil.which("llvm-symbolizer") or next((p for p in ("/usr/lib/llvm-18/bin/llvm-symbolizer", "/usr/bin/llvm-symbolizer-18") if os.path.exists(p)), None)
    if sym:
        env["ASAN_SYMBOLIZER_PATH"] = sym
        env["UBSAN_SYMBOLIZER_PATH"] = sym
    if extra:
        env.update(extra)
    return env


def _limits():
    try:
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    except (OSError, ValueError):
        pass


def _run_proc(exe, reqs, ids, box, hang_s, env, prefix=()):
    """Runs the requests ids[...] in one process. Returns (records by id, id it was working on when it ended or None, how, stderr)."""
    reqfile = os.path.join(box.dir, "req")
    with open(reqfile, "wb") as fh:
        for i in ids:
            fh.write(reqs[i].line(i).encode("latin-1", "replace"))
    os.chmod(reqfile, 0o644)
    errfile = open(os.path.join(box.dir, "err"), "w+b")
    rfd, wfd = os.pipe()
    e = dict(env)
    e["DRV_FD"] = str(wfd)

    def pre():
        _limits()
        _demote()

    p = subprocess.Popen(list(prefix) + [exe, reqfile], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errfile, cwd=box.work,
                         env=e, pass_fds=(wfd,), preexec_fn=pre, start_new_session=True)
    os.close(wfd)
    buf = b""
    recs = {}
    cur = None
    hung = False
    last = time.monotonic()
    last_cpu = 0.0
    while True:
        rl, _, _ = select.select([rfd], [], [], 1.0)
        if rl:
            data = os.read(rfd, 1 << 20)
            if not data:
                break
            last = time.monotonic()
            buf += data
            *lines, buf = buf.split(b"\n")
            for ln in lines:
                if ln.startswith(b"B "):
                    cur = int(ln[2:])
                elif ln:
                    rec = json.loads(ln)
                    recs[int(rec["id"])] = rec
                    cur = None
        elif time.monotonic() - last > hang_s:
            hung = True
            break
    if hung:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    rc = p.wait()
    os.close(rfd)
    errfile.seek(0)
    err = errfile.read(400000).decode("latin-1")
    errfile.close()
    return recs, cur, hung, rc, err


def _worker(exe, reqs, ids, files, hang_s, env, out, max_crashes, collect, prefix=()):
    crashes = 0
    todo = list(ids)
    with Sandbox(files(ids) if callable(files) else files) as box:
        while todo:
            recs, cur, hung, rc, err = _run_proc(exe, reqs, todo, box, hang_s, env, prefix)
            for i, rec in recs.items():
                out[i] = Result(rec)
                if collect:
                    out[i].files = collect(box, i)
            todo = [i for i in todo if i not in recs]
            if not todo:
                if rc != 0 and recs:
                    # everything answered but a bad exit: count against the last request
                    last = max(recs)
                    out[last] = Result(recs[last], crash=rc, stderr=err)
                break
            if hung:
                bad = cur if cur is not None else todo[0]
                # run it alone, with a generous limit, before calling it a hang
                r2, c2, h2, rc2, err2 = _run_proc(exe, reqs, [bad], box, hang_s * 2, env, prefix)
                if bad in r2:
                    out[bad] = Result(r2[bad])
                elif h2:
                    out[bad] = Result(hang=True, stderr=err2)
                else:
                    out[bad] = Result(crash=rc2, stderr=err2)
                todo.remove(bad)
                crashes += max(1, max_crashes // 2)
            elif cur is not None:
                out[cur] = Result(crash=rc, stderr=err)
                todo.remove(cur)
                crashes += 1
            else:
                # died between requests: cannot be assigned
                if rc in (95, 96, 97, 98) or not recs:
                    raise HarnessError("driver ended with %s before any request: %s" % (rc, err[-2000:]))
            if crashes >= max_crashes:
                break


def run(exe, reqs, files=None, jobs=None, batch=400, hang_s=25, env=None, max_crashes=40, collect=None, prefix=()):
    """Runs all requests, in parallel batches. Returns a list of Result (None where not run because of too many crashes)."""
    jobs = jobs or min(8, os.cpu_count() or 4)
    out = [None] * len(reqs)
    n = len(reqs)
    if n == 0:
        return out
    size = max(1, min(batch, (n + jobs - 1) // jobs))
    chunks = [list(range(i, min(n, i + size))) for i in range(0, n, size)]
    e = base_env(env)
    # one copy which the unprivileged user can reach, complete before any process is started
    holder = tempfile.mkdtemp(prefix="fuelx-", dir="/tmp")
    try:
        os.chmod(holder, 0o755)
        local = os.path.join(holder, "driver")
        shutil.copy(exe, local)
        os.chmod(local, 0o755)
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            futs = [ex.submit(_worker, local, reqs, c, files, hang_s, e, out, max_crashes, collect, prefix) for c in chunks]
            for f in futs:
                f.result()
    finally:
        shutil.rmtree(holder, ignore_errors=True)
    return out


_SAN = re.compile(r"((?<=== )(?:Conditional jump|Use of uninit|Invalid |Syscall param|Jump to|Source and dest)[^\n]*|runtime error: [^\n]*|ERROR: (?:AddressSanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer): [^\n]*|WARNING: ThreadSanitizer: [^\n]*|Error: attempt to [^\n]*|Assertion [^\n]*failed[^\n]*|terminate called[^\n]*|SUMMARY: [^\n]*)")


def crash_summary(res):
    """first sanitizer line plus the innermost frames of the project"""
    if res.hang:
        return "no progress within the limit (twice)"
    m = _SAN.search(res.stderr or "")
    s = m.group(1) if m else "process ended with status %s" % res.crash
    frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (/[^\s:]*(?:CppLisp)[^\s:]*):(\d+)", res.stderr or "")
    fr = ["%s %s" % (re.sub(r"\(.*", "", a), os.path.basename(b)) for a, b, c in frames[:4]]
    s = re.sub(r"0x[0-9a-f]+", "0x..", s)
    return s + (" | " + " < ".join(fr) if fr else "")


def run_cli(exe, jobs, workers=8, timeout=60, env=None):
    """jobs: list of (args, stdin bytes, files) or (args, stdin bytes, files, further environment). Each runs as the unprivileged user in an own scratch directory.
    Returns list of dicts rc, out, err, files (latin-1 text)."""
    e = base_env(env)

    def one(job):
        args, stdin, files = job[:3]
        own = dict(e, **job[3]) if len(job) > 3 else e
        with Sandbox(files) as box:
            local = os.path.join(box.dir, "fuel")
            os.symlink(exe_copy, local)

            def pre():
                _limits()
                _demote()
            for attempt in (1, 2):
                try:
                    p = subprocess.run([exe_copy] + [a.encode("latin-1") for a in args], input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=box.work, env=own, preexec_fn=pre, timeout=timeout * attempt)
                    rc = p.returncode
                    break
                except subprocess.TimeoutExpired:
                    rc = None
            if rc is None:
                return {"rc": None, "out": "", "err": "no end within the limit (twice)", "files": {}}
            left = {}
            for root, _, names in os.walk(box.work):
                for nme in names:
                    pth = os.path.join(root, nme)
                    try:
                        with open(pth, "rb") as fh:
                            left[os.path.relpath(pth, box.work)] = fh.read().decode("latin-1")
                    except OSError:
                        pass
            return {"rc": rc, "out": p.stdout.decode("latin-1"), "err": p.stderr.decode("latin-1"), "files": left}

    holder = tempfile.mkdtemp(prefix="fuelc-", dir="/tmp")
    os.chmod(holder, 0o755)
    exe_copy = os.path.join(holder, "fuel")
    shutil.copy(exe, exe_copy)
    os.chmod(exe_copy, 0o755)
    try:
        with cf.ThreadPoolExecutor(max_workers=workers) as ex:
            return list(ex.map(one, jobs))
    finally:
        shutil.rmtree(holder, ignore_errors=True)
