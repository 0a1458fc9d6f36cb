#!/usr/bin/env python3-vt
"""run_check.py ID : decides property ID on /repo's current working tree.

 1. the functions under contract are extracted from the current sources (clang 18 AST),
 2. their bodies are executed symbolically against the contracts of specs/<id>.py and every
    obligation is sent to z3, then cvc5,
 3. the native harness native/<id>.cpp runs the real code on generated inputs: it looks for the
    failing input of a failed obligation and is the bounded stand-in of what is not proved.
"""
import sys, os, json, time, threading, importlib, subprocess, signal, traceback
import warnings
warnings.filterwarnings('ignore', category=DeprecationWarning)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.abspath(__file__))
os.chdir(VERIF)
from vc import ir, native
from vc.ir import Unsupported

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
THOROUGH = TIER == "thorough"

COMMON_ASSUMPTIONS = [
    "floating-point arithmetic is treated as real arithmetic with explicit infinities/NaN where a contract asks "
    "for them: rounding, overflow to infinity and signed zero are not modelled",
    "signed and size_t additions and multiplications are treated as mathematical (conversions between widths are modelled); "
    "container sizes are at most 2^31-1",
    "smart pointers own their pointee (no aliasing between two arguments or fields)",
    "an object reached through a pointer or reference to a class has that class as its dynamic type, except where a contract is attached to the virtual function or names another class",
    "standard library containers and algorithms are modelled by their specification (vc/stdlib.py)",
    "logging, warning-message formatting and singletons (CLog, Formatter) have no effect on the results",
    "exp, log, sqrt, pow are uninterpreted except for the axioms of vc/theory.py; finite sums are uninterpreted except for "
    "their recursion, splitting and comparison lemmas",
    "clang 18 front end, vc/ (symbolic executor, loop rule) and the solvers are trusted",
]


def is_bad(r):
    return "unsupported" in r and "time" in r["unsupported"] or \
        any(o["status"] not in ("proved", "vacuous", "covered", "cover-unknown") for o in r.get("obs", ()))


def n_unproved(r):
    return sum(1 for o in r["obs"] if o["status"] != "proved" and o["kind"] != "cover") if "obs" in r else 10 ** 6


def prove_one(prog, mod, idx, outfd, slow):
    from vc import theory
    t0 = time.time()
    theory.SLOW[0] = slow
    res = attempt(prog, mod, idx)
    res["wall"] = round(time.time() - t0, 2)
    b = json.dumps(res).encode()
    with os.fdopen(outfd, "wb") as f:
        f.write(b)


def attempt(prog, mod, idx):
    from vc import theory, engine, contract, discharge
    res = {"idx": idx}
    t0 = time.time()
    try:
        cons = mod.contracts()
        con = cons[idx]
        res["function"] = con.q
        res["name"] = con.short
        W = theory.World(prog)
        if hasattr(mod, "world"):
            mod.world(W)
        ex = engine.Ex(W, prog)
        for c in cons:
            if c.usable:
                c.resolve(prog)
                if c is not con:
                    ex.contracts[c.fn["key"]] = c
        con.resolve(prog)
        res["file"] = con.fn.get("file")
        budget = (400 if THOROUGH else 150) * getattr(con, "budget", 1) * theory.SLOW[0] ** 0.5
        summ = contract.verify(ex, con, budget)
        res["returns"], res["throws"] = summ["returns"], summ["throws"]
        res["vcgen_s"] = summ["time"]
        res["inlined"] = sorted(set(getattr(ex, "inlined", ())))
        res["loops"] = [list(x) for x in ex.loop_stats]
        dl = time.time() + (500 if THOROUGH else 200)
        discharge.discharge(W, ex.obs, 60 if THOROUGH else 25, procs=2, deadline=dl)
        res["obs"] = [dict(name=o.name, kind=o.kind, loc=o.loc, status=o.status, backend=o.backend, time=round(o.time or 0, 3),
                           note=o.note, model=(o.model or "")[:1500] if o.status == "refuted" else "") for o in ex.obs]
        res["assumed"] = sorted(set(getattr(ex, "assumed", ()) or ()))
    except Unsupported as e:
        res["unsupported"] = str(e)[:600]
    except engine_timeout() as e:
        res["unsupported"] = "time budget of the symbolic executor exhausted"
    except Exception as e:
        res["unsupported"] = "internal: %s: %s" % (type(e).__name__, str(e)[:300])
        res["trace"] = traceback.format_exc()[-1500:]
    return res


def engine_timeout():
    from vc import engine
    return getattr(engine, "Budget", TimeoutError)


def prove_all(prog, mod, idxs, limit, par=8, slow=1.0):
    results = {}
    idxs = list(idxs)
    pend = list(idxs)
    live = {}
    t0 = time.time()
    import select
    bufs = {}
    while pend or live:
        while pend and len(live) < par:
            i = pend.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    prove_one(prog, mod, i, w, slow)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = (i, pid, time.time())
            bufs[r] = b""
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            d = os.read(r, 1 << 16)
            if d:
                bufs[r] += d
                continue
            i, pid, _t = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                results[i] = json.loads(bufs[r])
            except ValueError:
                results[i] = {"idx": i, "unsupported": "worker died"}
        now = time.time()
        for r, (i, pid, ts) in list(live.items()):
            if now - t0 > limit:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        if now - t0 > limit:
            for i in pend:
                results[i] = {"idx": i, "unsupported": "overall time limit"}
            pend = []
    return [results[i] for i in idxs]


class Native(threading.Thread):
    def __init__(self, name):
        super().__init__(daemon=True)
        self.name_ = name
        self.err = None
        self.exe = None
        self.recompiled = 0

    def run(self):
        try:
            ar, err, n = native.build_lib(6)
            self.recompiled = n
            if ar is None:
                self.err = "library does not compile: " + err
                return
            self.exe, err = native.build_harness(self.name_, ar)
            if self.exe is None:
                self.err = "harness does not compile: " + err
        except Exception as e:
            self.err = "native: %s" % e


def run_native(exe, seed, scale, budget, shards=6):
    """-> (fails, stats)"""
    ps = []
    for s in range(shards):
        ps.append(subprocess.Popen([exe, str(seed), str(s), str(shards), str(scale), str(budget)],
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    fails = []
    st = {"evaluations": 0, "distinct": 0, "skipped": 0, "groups": {}, "samples": [], "truncated": False, "errors": []}
    tend = time.time() + budget + 30
    for s, p in enumerate(ps):
        try:
            o, e = p.communicate(timeout=max(1, tend - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            # a case that does not terminate: reported with the case's name when it can be told
            st["errors"].append("shard %d did not finish" % s)
        got = False
        for l in o.splitlines():
            if l.startswith("FAILCASE "):
                try:
                    fails.append(json.loads(l[9:]))
                except ValueError:
                    fails.append({"what": l[9:]})
            elif l.startswith("STATS "):
                try:
                    d = json.loads(l[6:])
                except ValueError:
                    continue
                got = True
                for k in ("evaluations", "distinct", "skipped"):
                    st[k] += d[k]
                st["truncated"] |= d["truncated"]
                st["samples"] += d["samples"]
                for k, v in d["groups"].items():
                    st["groups"][k] = st["groups"].get(k, 0) + v
        for l in e.splitlines():
            if l.startswith("FAILCASE "):
                fails.append({"what": "crash", "inputs": l[9:]})
        if not got and not fails:
            st["errors"].append("shard %d gave no statistics (rc %s): %s" % (s, p.returncode, e[-200:]))
    return fails, st


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("known", []):
            if k["property"] == pid:
                out.append(k)
    return out


def classify(results):
    obs, failed, unsup = [], [], []
    for r in results:
        if "unsupported" in r:
            unsup.append(r)
            continue
        real = [o for o in r["obs"] if o["kind"] != "cover"]
        cov = [o for o in r["obs"] if o["kind"] == "cover"]
        if cov and all(o["status"] == "vacuous" for o in cov):
            unsup.append(dict(r, unsupported="every return path is unreachable under the assumptions"))
            continue
        for o in real:
            obs.append((r, o))
            if o["status"] != "proved":
                failed.append((r, o))
    return obs, failed, unsup


def main():
    pid = sys.argv[1]
    only = sys.argv[2:] if len(sys.argv) > 2 else None
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "specs"))
    mod = importlib.import_module(pid.lower())
    nat = None
    if getattr(mod, "HARNESS", None) and not os.environ.get("NO_NATIVE"):
        nat = Native(mod.HARNESS)
        nat.start()
    results = []
    xerr = None
    import tempfile, shutil
    try:
        d = tempfile.mkdtemp(prefix="ir", dir=native.BUILD)
        try:
            prog = ir.extract(mod.FILES, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        cons = mod.contracts()
        results = prove_all(prog, mod, [k for k, c in enumerate(cons) if not c.trusted], 420 if not THOROUGH else 3000)
    except Unsupported as e:
        xerr = str(e)[:2000]
    t_proof = time.time() - t0
    fails, st = [], None
    nerr = None
    if nat:
        nat.join()
        if nat.err:
            nerr = nat.err
        else:
            fails, st = run_native(nat.exe, SEED, 20 if THOROUGH else 1, 600 if THOROUGH else 60)
    # a time limit may have been hit on a loaded machine: what is not proved is tried once more with larger
    # limits, unless the real code already showed a failing input
    again = [k for k, r in enumerate(results) if is_bad(r)]
    kf = known_findings(pid)
    listed = lambda x: any(k.get("match") and k["match"] in str(x.get("what")) for k in kf)
    if again and not [x for x in fails if not listed(x)]:
        for k, r2 in zip(again, prove_all(prog, mod, [results[k]["idx"] for k in again], max(30, (640 if not THOROUGH else 6000) - (time.time() - t0)), slow=4.0)):
            if n_unproved(r2) <= n_unproved(results[k]):
                results[k] = dict(r2, second_attempt=True)
    obs, failed, unsup = classify(results)
    verbose = os.environ.get("VERBOSE")
    for r in results:
        nm = r.get("name", r.get("function", "?"))
        if "unsupported" in r:
            print("  [%s] NOT DECIDED BY PROOF: %s" % (nm, r["unsupported"]))
            if verbose and r.get("trace"):
                print(r["trace"])
        else:
            n = sum(1 for o in r["obs"] if o["kind"] != "cover")
            k = sum(1 for o in r["obs"] if o["kind"] != "cover" and o["status"] == "proved")
            cv = [o["status"] for o in r["obs"] if o["kind"] == "cover"]
            print("  [%s] %d/%d obligations discharged (vcgen %.1fs, total %.1fs)%s" % (
                nm, k, n, r["vcgen_s"], r["wall"], " covers: %s" % ",".join(cv) if verbose else ""))
            for o in r["obs"]:
                if o["kind"] != "cover" and o["status"] != "proved":
                    print("      %s (%s): %s line %s %s" % (o["status"], o["backend"], o["name"], o["loc"], o["note"]))
                    if verbose:
                        print("         ", o["model"][:1500].replace("\n", " "))
                if verbose == "2" and o["kind"] != "cover":
                    print("      - %s %s %.2fs %s %s" % (o["status"], o["kind"], o["time"], o["name"], o["loc"]))
    if xerr:
        print("  extraction: " + xerr)
    if unsup or xerr:
        print("  bounded stand-in used for: " + (", ".join(r.get("name", "?") for r in unsup) if not xerr else "everything"))
    if nat:
        if nat.err:
            print("  native: " + nerr[:1500])
        else:
            if not [x for x in fails if not listed(x)] and (failed or unsup or xerr) and not THOROUGH:
                left = 780 - (time.time() - t0)
                b = min(150, left)
                if b > 20:
                    f2, s2 = run_native(nat.exe, SEED + 1000, 30, b, 8)
                    fails += f2
                    for k in ("evaluations", "distinct", "skipped"):
                        st[k] += s2[k]
            print("  native: %d cases, %d distinct, %s" % (st["evaluations"], st["distinct"], "FAILING" if [x for x in fails if not listed(x)] else "only known findings fail" if fails else "clean"))
            for x in fails[:5]:
                print("      %s[%s]: %s | %s" % (x.get("group"), x.get("index"), x.get("what"), str(x.get("inputs"))[:400]))
            for e in st["errors"]:
                print("      " + e)
    # known findings
    news = [x for x in fails if not listed(x)]
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    nf = [(r, o) for r, o in failed if not any(k.get("obligation") == o["name"] and k.get("function") == r["function"] for k in kf)]
    rc = 0
    viol = 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", "%s-replay.txt" % pid)
    if os.path.exists(rp):
        os.unlink(rp)
    if nf or news:
        viol = len(nf) + len(news)
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            for r, o in nf:
                f.write("\nFAILED OBLIGATION of %s (%s): %s\n  kind %s, source line %s, verdict %s by %s, %ss %s\n" % (
                    r["function"], r.get("file"), o["name"], o["kind"], o["loc"], o["status"], o["backend"], o["time"], o["note"]))
                if o["model"]:
                    f.write("  solver model of the negated obligation:\n    " + o["model"].replace("\n", "\n    ") + "\n")
            for x in news:
                f.write("\nFAILING INPUT on the real code: %s\n" % json.dumps(x))
                if x.get("group"):
                    f.write("  replay: %s %s 0 1 1 60 %s %s\n" % (nat.exe, x.get("seed"), x["group"], x.get("index")))
        rc = 1
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if news else " no-failing-input-found"))
    be = {}
    for r, o in obs:
        if o["status"] == "proved":
            be[o["backend"]] = be.get(o["backend"], 0) + 1
    ev = {
        "property": pid, "tier": TIER, "seed": SEED,
        "level": getattr(mod, "LEVEL", "proof"),
        "coverage": {
            "obligations": len(obs),
            "discharged": sum(1 for r, o in obs if o["status"] == "proved"),
            "checker_cmd": "python3-vt run_check.py %s" % pid,
            "trusted_base": ["clang 18 front end + tools/cxx2ir (AST to JSON, nothing dropped silently: unknown nodes abort)",
                             "vc/ symbolic executor, loop rule and library models", "z3 %s, cvc5 1.1.2" % z3ver()],
            "functions_under_contract": [dict(function=r.get("function"), file=r.get("file"), obligations=sum(1 for o in r.get("obs", []) if o["kind"] != "cover"),
                                              proved=("unsupported" not in r) and all(o["status"] == "proved" for o in r["obs"] if o["kind"] != "cover"),
                                              not_decided=r.get("unsupported"), loops=r.get("loops"), inlined=r.get("inlined"),
                                              vcgen_s=r.get("vcgen_s")) for r in results],
            "back_ends": be,
            "solver_time_s": round(sum(o["time"] for r, o in obs), 2),
            "covers": {s: sum(1 for r in results for o in r.get("obs", []) if o["kind"] == "cover" and o["status"] == s)
                       for s in ("covered", "vacuous", "cover-unknown")},
            "failed_obligations": [dict(function=r["function"], name=o["name"], status=o["status"]) for r, o in failed],
            "extraction_error": xerr,
            "bounded": None if st is None else dict(
                note="bounded native cross-check of the real code; stands in only for functions listed as not decided; never counted as proved",
                evaluations=st["evaluations"], distinct_nontrivial=st["distinct"], skipped=st["skipped"], groups=st["groups"],
                truncated=st["truncated"], errors=st["errors"], rule=getattr(mod, "RULE", "generated from VERIF_SEED; a case is distinct by its recorded inputs")),
            "samples": (st["samples"][:12] if st else []),
            "evaluations": st["evaluations"] if st else 0,
            "distinct_nontrivial": st["distinct"] if st else 0,
            "rule": getattr(mod, "RULE", "cases generated from VERIF_SEED per group; distinct by the recorded inputs; cases whose preconditions fail are skipped and not counted"),
        },
        "assumptions": COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])) +
        ["assumed contract of %s: %s" % (c.short, c.trusted) for c in mod.contracts() if c.trusted],
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    if nerr:
        ev["coverage"]["native_error"] = nerr[:1500]
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %s  obligations %d discharged %d  undecided functions %d  %.1fs" % (
        pid, "VIOLATION" if rc else "holds", len(obs), ev["coverage"]["discharged"], len(unsup), time.time() - t0))
    if rc == 0 and nat and nerr and (unsup or xerr):
        # neither proof nor stand-in gave an answer
        print("check error: no answer")
        rc = 2
    sys.exit(rc)


def z3ver():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
