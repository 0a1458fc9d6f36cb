"""Discharge of obligations: z3 first (several configurations), then cvc5; in parallel."""
from .theory import SLOW
import z3, os, time, multiprocessing as mp, signal
from .theory import cvc5_check, z3cli_check, hasq

_J = None


def _assemble(W, o):
    return W.assemble(o.hyps, o.goal)


def try_z3(fs, tmo, opts):
    s = z3.Solver()
    s.set("timeout", int(tmo * 1000 * SLOW[0]))
    for k, v in opts.items():
        s.set(k, v)
    s.add(*fs)
    t0 = time.time()
    try:
        r = str(s.check())
    except z3.Z3Exception:
        r = "unknown"
    m = None
    if r == "sat":
        try:
            m = str(s.model())[:4000]
        except z3.Z3Exception:
            m = None
    return r, time.time() - t0, m, s


def solve_one(W, o, budget):
    """-> (status, backend, time, model)"""
    for k, v in (getattr(o, "wopts", None) or {}).items():
        setattr(W, k, v)
    t_all = 0.0
    if o.kind == "cover":
        fs = W.assemble(o.hyps, None)
        r, t, m, s = try_z3(fs, min(3, budget), {})
        return ("vacuous" if r == "unsat" else ("covered" if r == "sat" else "cover-unknown")), "z3", t, None
    if z3.is_true(o.goal):
        return "proved", "simplifier", 0.0, None
    if W.exp_triples:
        # most obligations do not need the functional equation of exp
        W.exp_triples = False
        try:
            r, t, m, s = try_z3(W.assemble(o.hyps, o.goal), 3, {})
        finally:
            W.exp_triples = True
        t_all += t
        if r == "unsat":
            return "proved", "z3", t_all, None
    from .theory import info, nl_all
    ab = nl_all(W.assemble(o.hyps, o.goal))
    if ab is not None:
        r, t, m, s = try_z3(ab, 2, {})
        t_all += t
        if r == "unsat":
            return "proved", "z3", t_all, None
    from .relax import relax
    rx = relax(W.assemble(o.hyps, o.goal))
    if rx is not None:
        r, t, m, s = try_z3(rx, 2, {})
        t_all += t
        if r == "unsat":
            return "proved", "z3", t_all, None
    hassum = any(a[1] in W.sum_by_decl for f in o.hyps + [o.goal] for a in info(f)[2])
    if hassum:
        W.side_sums = True
        fs = W.assemble(o.hyps, o.goal)
        r, t, m, s = try_z3(fs, min(3, budget), {})
        t_all += t
        if r == "unsat":
            return "proved", "z3", t_all, None
        t0 = time.time()
        hyps, goal = list(o.hyps), o.goal
        while z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
            hyps.append(goal.arg(0))
            goal = goal.arg(1)
        side = W.side_lemmas(hyps, goal, deadline=t0 + 2 * budget)
        side = side if len(hyps) == len(o.hyps) else [z3.Implies(z3.And(hyps[len(o.hyps):]), x) for x in side]
        fs = W.assemble(o.hyps + side, o.goal)
        r, t, m, s = try_z3(fs, min(10, budget), {})
        t_all += time.time() - t0
        if r == "unsat":
            return "proved", "z3", t_all, None
        W.side_sums = False
        o_hyps = o.hyps + side
    else:
        o_hyps = o.hyps
    fs = W.assemble(o_hyps, o.goal)
    quant = any(hasq(f) for f in fs)
    plan = [({}, min(5, budget))]
    if quant:
        plan.append(({"auto_config": False, "smt.mbqi": False}, min(8, budget)))
        plan.append(({"smt.random_seed": 7, "smt.arith.solver": 2}, min(8, budget)))
    else:
        plan.append(({"smt.arith.solver": 2}, min(8, budget)))
    for opts, tmo in plan:
        r, t, m, s = try_z3(fs, tmo, opts)
        t_all += t
        if r == "unsat":
            return "proved", "z3", t_all, None
        if r == "sat":
            return "refuted", "z3", t_all, m
    # cvc5
    t0 = time.time()
    try:
        s = z3.Solver()
        s.add(*fs)
        smt = s.to_smt2()
        r = z3cli_check(smt, min(6, budget))
        if r == "unsat":
            return "proved", "z3-4.8", t_all + time.time() - t0, None
        r = cvc5_check(smt, min(10, budget))
    except Exception as e:  # printing problems only lose the second opinion
        r = "unknown"
    t_all += time.time() - t0
    if r == "unsat":
        return "proved", "cvc5", t_all, None
    r, t, m, s = try_z3(fs, budget, {})
    t_all += t
    if r == "unsat":
        return "proved", "z3", t_all, None
    if r == "sat":
        return "refuted", "z3", t_all, m
    return "unknown", "z3,cvc5", t_all, None


def discharge(W, obs, budget=20, procs=8, deadline=None):
    todo = [i for i, o in enumerate(obs) if o.status is None]
    W.pull_defs()
    import random
    if not todo:
        return
    # fork workers over an index queue; z3 terms are inherited
    n = min(procs, max(1, len(todo)))
    pipes = []
    rd, wr = os.pipe()
    # shared counter through a pipe of indices
    qr, qw = os.pipe()
    if len(todo) * 4 > 60000:
        chunks = [todo[k::n] for k in range(n)]
        static = True
    else:
        os.write(qw, b"".join(i.to_bytes(4, "little") for i in todo))
        static = False
    os.close(qw)
    pids = []
    for k in range(n):
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                def work(i):
                    o = obs[i]
                    try:
                        r = solve_one(W, o, budget)
                    except Exception as e:
                        r = ("unknown", "error: %s" % e, 0.0, None)
                    import json
                    b = json.dumps([i] + list(r)).encode()
                    if len(b) > 3800:
                        b = json.dumps([i, r[0], r[1], r[2], (r[3] or "")[:3000]]).encode()
                    os.write(wr, len(b).to_bytes(4, "little") + b)
                if static:
                    for i in chunks[k]:
                        work(i)
                else:
                    while True:
                        b = os.read(qr, 4)
                        if len(b) < 4:
                            break
                        work(int.from_bytes(b, "little"))
            finally:
                os._exit(0)
        pids.append(pid)
    os.close(wr); os.close(qr)
    import json, select
    buf = b""
    while True:
        tmo = None
        if deadline:
            tmo = max(0.1, deadline - time.time())
        r, _, _ = select.select([rd], [], [], tmo)
        if not r:
            for p in pids:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
        d = os.read(rd, 65536)
        if not d:
            break
        buf += d
        while len(buf) >= 4:
            ln = int.from_bytes(buf[:4], "little")
            if len(buf) < 4 + ln:
                break
            i, st, be, t, m = json.loads(buf[4:4 + ln])
            buf = buf[4 + ln:]
            o = obs[i]
            o.status = st; o.backend = be; o.time = t; o.model = m
    os.close(rd)
    for p in pids:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for i in todo:
        if obs[i].status is None:
            obs[i].status = "unknown"; obs[i].backend = "deadline"
