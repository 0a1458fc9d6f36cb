"""Builds /repo's library (objects cached by content of every repository file they
depend on) and the native harnesses of /verif/native against it."""
import os, sys, json, hashlib, subprocess, threading, glob, time
from concurrent.futures import ThreadPoolExecutor
from .ir import REPO, VERIF

BUILD = os.path.join(VERIF, "build")
CXXFLAGS = ["-std=c++17", "-O1", "-g0", "-w", "-fPIC", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_ALL_DYN_LINK",
            "-isystem", "/usr/include/eigen3"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lboost_timer", "-lboost_chrono",
        "-lboost_program_options", "-lcfitsio", "-lfftw3", "-lopenblas", "-lgsl", "-lgslcblas", "-lpthread"]
SKIP = {"lbfgsbfitter.cpp"}


def incs():
    return ["-I%s/RedshiftLibrary" % REPO, "-I%s/vc/stub" % VERIF]


def h(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


class Cache:
    def __init__(self):
        self.memo = {}

    def h(self, rel):
        r = self.memo.get(rel, 0)
        if r == 0:
            r = h(os.path.join(REPO, rel) if not rel.startswith("/") else rel)
            self.memo[rel] = r
        return r


def relp(p):
    p = os.path.normpath(p)
    if p.startswith(REPO + "/"):
        return p[len(REPO) + 1:]
    return p


def compile_one(src, obj, meta, cache, force=False):
    """src absolute.  -> (ok, recompiled, message)"""
    flags = " ".join(CXXFLAGS)
    if os.path.exists(obj) and os.path.exists(meta) and not force:
        try:
            m = json.load(open(meta))
            if m["flags"] == flags and all(cache.h(p) == v for p, v in m["deps"].items()):
                return True, False, ""
        except (ValueError, KeyError):
            pass
    dep = obj + ".d.%d" % os.getpid()
    tmp = obj + ".tmp.%d" % os.getpid()
    cmd = ["g++"] + CXXFLAGS + incs() + ["-MD", "-MF", dep, "-c", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        return False, True, src + "\n" + r.stderr[-3000:]
    txt = open(dep).read().replace("\\\n", " ")
    os.unlink(dep)
    deps = {}
    for p in txt.split(":", 1)[1].split():
        if p.startswith("/usr/"):
            continue
        p = relp(os.path.abspath(p))
        deps[p] = cache.h(p)
    with open(meta + ".%d" % os.getpid(), "w") as f:
        json.dump({"flags": flags, "deps": deps}, f)
    os.rename(tmp, obj)
    os.rename(meta + ".%d" % os.getpid(), meta)
    return True, True, ""


def sources():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "RedshiftLibrary/src/lib/**/*.cpp"), recursive=True)):
        if os.path.basename(p) not in SKIP:
            out.append(p)
    return out


class Lock:
    def __enter__(self):
        import fcntl
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_lib(jobs=8, log=None):
    """-> (archive path or None, error text, number recompiled)"""
    with Lock():
        od = os.path.join(BUILD, "obj")
        os.makedirs(od, exist_ok=True)
        cache = Cache()
        srcs = sources()
        objs = []
        tasks = []
        for s in srcs:
            key = relp(s).replace("/", "__")
            o = os.path.join(od, key + ".o")
            objs.append(o)
            tasks.append((s, o, os.path.join(od, key + ".json")))
        n = 0
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(lambda t: compile_one(t[0], t[1], t[2], cache), tasks))
        errs = [r[2] for r in rs if not r[0]]
        n = sum(1 for r in rs if r[1])
        if errs:
            return None, "\n".join(errs)[:4000], n
        lst = os.path.join(od, "list.txt")
        ar = os.path.join(BUILD, "librepo.a")
        cur = "\n".join(objs)
        old = open(lst).read() if os.path.exists(lst) else ""
        if n or cur != old or not os.path.exists(ar):
            if os.path.exists(ar):
                os.unlink(ar)
            r = subprocess.run(["ar", "rcs", ar] + objs, capture_output=True, text=True)
            if r.returncode:
                return None, r.stderr, n
            with open(lst, "w") as f:
                f.write(cur)
        return ar, "", n


def build_harness(name, ar):
    """-> (exe, error)"""
    src = os.path.join(VERIF, "native", name + ".cpp")
    hd = os.path.join(BUILD, "harness")
    os.makedirs(hd, exist_ok=True)
    obj = os.path.join(hd, name + ".o")
    exe = os.path.join(hd, name)
    cache = Cache()
    ok, re_, err = compile_one(src, obj, os.path.join(hd, name + ".json"), cache)
    if not ok:
        return None, err
    if not re_ and os.path.exists(exe) and os.path.getmtime(exe) > os.path.getmtime(ar) \
            and os.path.getmtime(exe) > os.path.getmtime(obj):
        return exe, ""
    tmp = exe + ".tmp%d" % os.getpid()
    r = subprocess.run(["g++", "-o", tmp, obj, ar] + LIBS, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-3000:]
    os.rename(tmp, exe)
    return exe, ""
