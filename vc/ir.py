"""Loading of the JSON produced by cxx2ir: types, records, functions, globals."""
import json, os, subprocess, hashlib, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ("k", "w", "s", "n", "tn", "args", "t", "const", "p", "num", "lam", "rv", "c")

    def __init__(self):
        self.k = "other"; self.w = 0; self.s = True; self.n = ""; self.tn = ""
        self.args = []; self.t = None; self.const = False; self.p = ""; self.num = None
        self.lam = False; self.rv = False; self.c = False

    def __repr__(self):
        return "Ty(%s)" % self.p

    @property
    def isint(self):
        return self.k in ("int", "enum")

    def deref(self):
        return self.t if self.k == "ref" else self


class TU:
    def __init__(self, data, prog):
        self.raw = data["types"]
        self.prog = prog
        self.cache = {}

    def ty(self, i):
        if i is None:
            return None
        r = self.cache.get(i)
        if r is not None:
            return r
        o = self.raw[i]
        p = o.get("p", "")
        key = p if not (o.get("lambda")) else p + "#%d" % id(self) + "#%d" % i
        t = self.prog.types.get(key)
        if t is not None:
            self.cache[i] = t
            return t
        t = Ty()
        self.cache[i] = t
        self.prog.types[key] = t
        t.k = o.get("k", "other"); t.p = p
        t.w = o.get("w", 0); t.s = o.get("s", True); t.n = o.get("n", "") if isinstance(o.get("n", ""), str) else ""
        t.c = o.get("c", False)
        if t.k == "arr":
            t.num = o["n"]
        t.tn = o.get("tn", "") or t.n
        t.lam = o.get("lambda", False)
        t.const = o.get("const", False); t.rv = o.get("rv", False)
        if "t" in o:
            t.t = self.ty(o["t"])
        if t.k == "fn":
            t.t = self.ty(o["r"])
        t.args = [self.ty(a) if isinstance(a, int) else (a["v"] if isinstance(a, dict) and "v" in a else a)
                  for a in o.get("a", [])]
        return t


TYKEYS = ("t", "ret", "cls", "ct", "clt", "at", "base")


class Program:
    """All functions/records/globals of the TUs loaded."""

    def __init__(self):
        self.types = {}
        self.functions = {}
        self.records = {}
        self.globals = {}
        self.byname = {}
        self.overriders = {}

    def load(self, data):
        tu = TU(data, self)
        for k, f in data["functions"].items():
            if f is None or k in self.functions:
                continue
            self.functions[k] = ("raw", tu, f)
            self.byname.setdefault(f["q"], []).append(k)
            for o in f.get("over", []):
                self.overriders.setdefault(o, []).append(k)
        for k, r in data["records"].items():
            old = self.records.get(k)
            if old is None or ("fields" in r and "fields" not in old):
                r = self._res(tu, r)
                self.records[k] = r
        for k, g in data["globals"].items():
            old = self.globals.get(k)
            if old is None or ("init" in g and "init" not in old):
                self.globals[k] = self._res(tu, g)

    def _res(self, tu, o):
        if isinstance(o, dict):
            r = {}
            for k, v in o.items():
                if k in TYKEYS and isinstance(v, int) and not isinstance(v, bool):
                    r[k] = tu.ty(v)
                elif k in ("ps", "ta", "bases") and isinstance(v, list):
                    r[k] = [tu.ty(x) if isinstance(x, int) else x for x in v]
                elif isinstance(v, (dict, list)):
                    r[k] = self._res(tu, v)
                else:
                    r[k] = v
            return r
        if isinstance(o, list):
            return [self._res(tu, x) if isinstance(x, (dict, list)) else x for x in o]
        return o

    def fn(self, key):
        f = self.functions.get(key)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = self._res(f[1], f[2])
            self.functions[key] = f
        return f

    def find(self, qname, nparams=None, pred=None):
        """All functions with this qualified name (optionally filtered)."""
        out = []
        for k in self.byname.get(qname, []):
            f = self.fn(k)
            if nparams is not None and len(f["params"]) != nparams:
                continue
            if pred and not pred(f):
                continue
            out.append(f)
        return out

    def typ(self, p):
        return self.types.get(p)

    def fields(self, ty):
        """Ordered {name: (Ty, init)} including base classes."""
        rec = self.records.get(ty.n)
        if ty.n == "boost::logic::tribool":
            # 0 false, 1 true, 2 indeterminate
            t = Ty()
            t.k = "int"; t.w = 32; t.s = True; t.p = "int"
            return {"value": (t, None)}
        if rec is None or "fields" not in rec:
            return None
        c = rec.get("_flat")
        if c is not None:
            return c
        out = {}
        for b in rec.get("bases", []):
            bf = self.fields(b)
            if bf:
                out.update(bf)
        for f in rec["fields"]:
            out[f["n"]] = (f["t"], f.get("init"))
        rec["_flat"] = out
        return out


CLANG_FLAGS = ["-I%s/RedshiftLibrary" % REPO, "-I%s/vc/stub" % VERIF, "-I/repo/_build/install/include",
               "-isystem", "/usr/include/eigen3", "-O0", "-std=c++17", "-Wno-everything",
               "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

CXX2IR = os.path.join(VERIF, "build", "cxx2ir")


def extract(files, outdir):
    """Run the extractor on the current sources; returns a Program."""
    os.makedirs(outdir, exist_ok=True)
    procs = []
    for f in files:
        path = f if f.startswith("/") else os.path.join(REPO, "RedshiftLibrary/src/lib", f)
        out = os.path.join(outdir, hashlib.md5(path.encode()).hexdigest()[:12] + ".json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [CXX2IR, out, "%s/RedshiftLibrary" % REPO, path, "--"] + CLANG_FLAGS
        procs.append((path, out, cmd))
    running = []
    done = []
    errs = []

    def reap(p):
        path, out, pr = p
        o, e = pr.communicate()
        if not os.path.exists(out):
            errs.append((path, (e or b"").decode(errors="replace")[-2000:]))
        else:
            done.append(out)

    for path, out, cmd in procs:
        if len(running) >= 8:
            reap(running.pop(0))
        running.append((path, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)))
    while running:
        reap(running.pop(0))
    if errs:
        raise Unsupported("extraction failed: " + "; ".join("%s: %s" % e for e in errs))
    prog = Program()
    for path, out, cmd in procs:
        with open(out) as fh:
            prog.load(json.load(fh))
    return prog
