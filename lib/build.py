"""Builds the driver from /repo's current working tree, in several instrumented variants."""
import hashlib, os, subprocess, sys, glob, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("FUEL_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
INTERP = os.path.join(REPO, "CppLisp/CppLispInterpreter")
DBG = os.path.join(REPO, "CppLisp/CppLispDebugger")

COMMON = ["-std=c++11", "-w", "-DWITH_STATIC_DEBUGGER", "-I" + INTERP, "-I" + DBG]
VARIANTS = {
    # memory errors, undefined behaviour, invalid container use
    "asan": ["clang++", "-O0", "-gline-tables-only", "-fno-omit-frame-pointer",
             "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
             "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_SANITIZE_VECTOR"],
    # the same plus the checked iterators of libstdc++
    "dbg": ["clang++", "-O0", "-gline-tables-only", "-fno-omit-frame-pointer",
            "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all",
            "-D_GLIBCXX_DEBUG", "-D_GLIBCXX_SANITIZE_VECTOR"],
    "plain": ["g++", "-O1", "-g1"],
    "tsan": ["clang++", "-O1", "-gline-tables-only", "-fsanitize=thread"],
}


class BuildError(Exception):
    pass


def sources():
    """All interpreter and debugger sources that make up the library (new files included)."""
    skip = {"stdafx.cpp", "dllmain.cpp", "targetver.cpp"}
    out = [f for f in sorted(glob.glob(INTERP + "/*.cpp")) if os.path.basename(f) not in skip]
    out += [f for f in sorted(glob.glob(DBG + "/*.cpp")) if os.path.basename(f) not in skip]
    return out


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(INTERP + "/*.cpp") + glob.glob(INTERP + "/*.h") + glob.glob(DBG + "/*.cpp") + glob.glob(DBG + "/*.h")
                   + glob.glob(os.path.join(REPO, "CppLisp/CppLisp/*.cpp")))
    for f in files + [os.path.join(VERIF, "harness/driver.cpp"), os.path.abspath(__file__)]:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("build failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("latin-1")[-4000:]))


def build(variant):
    """Returns the path of the driver binary for the current tree."""
    flags = VARIANTS[variant]
    key = tree_hash()
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    exe = os.path.join(d, "driver")
    if os.path.exists(exe):
        return exe
    # forget builds of other trees of this variant
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, variant + "-*")):
        if old != d:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    srcs = sorted(sources() + [os.path.join(VERIF, "harness/driver.cpp")], key=lambda f: -os.path.getsize(f))
    objs = []
    jobs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append(flags + COMMON + ["-c", s, "-o", o])
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(_run, jobs))
    tmp = exe + ".tmp%d" % os.getpid()
    _run(flags + objs + ["-o", tmp, "-lpthread", "-ldl"])
    os.rename(tmp, exe)
    for o in objs:
        os.unlink(o)
    return exe


def build_cli(flags="asan"):
    """The fuel program itself (static debugger), with ASan or (for measuring) without."""
    variant = "cli" if flags == "asan" else "cli" + flags
    key = tree_hash()
    d = os.path.join(BUILD, "%s-%s" % (variant, key))
    exe = os.path.join(d, "fuel")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, variant + "-*")):
        if old != d:
            shutil.rmtree(old, ignore_errors=True)
    os.makedirs(d, exist_ok=True)
    flags = VARIANTS[flags]
    srcs = sorted(sources() + [os.path.join(REPO, "CppLisp/CppLisp/FuelMain.cpp")], key=lambda f: -os.path.getsize(f))
    objs, jobs = [], []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        jobs.append(flags + COMMON + ["-c", s, "-o", o])
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(_run, jobs))
    _run(flags + objs + ["-o", exe, "-lpthread", "-ldl"])
    for o in objs:
        os.unlink(o)
    return exe


if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan"]:
        print(build_cli() if v == "cli" else build(v))
