"""World: uninterpreted mathematical functions, finite sums, facts about fresh
symbols, and the check of one implication (z3; cvc5 as second back end)."""
import z3, time, subprocess, tempfile, os
from .values import *
from .values import _select
from .ir import Unsupported

_info = {}   # ast id -> (ref, frozenset of consts names ids, frozenset of app keys)


SLOW = [1.0]     # time limits are multiplied by this (second attempt, loaded machine)


class World:
    def __init__(self, prog):
        self.prog = prog
        self.facts = []          # (set of const names, formula)
        self.nonfinite = set()   # substrings of names whose floats may be non finite
        self.force_kind = False
        self.sums = {}           # key -> SumFn
        self.sum_by_decl = {}
        self.ufs = {}
        self.strlits = {}
        self.extra_axioms = []   # callables (terms) -> [formula]
        self.stats = {"z3": 0, "z3_time": 0.0, "cvc5": 0, "cvc5_time": 0.0}
        self.maxlen = 2 ** 31 - 1
        self.intrange = True
        self.assume_div = False
        self.assume_log = False
        self.qfcache = {}
        self.side_sums = False   # comparison lemmas of sums decided by separate queries
        self.scales = []         # factors tried by the scaling lemma of finite sums
        self.skolems = {}
        self.exp_triples = False # exp(a+b)=exp(a)exp(b) for the terms that occur
        self.sum_bounds = False  # sum of terms at most 1 is at most the number of terms
        self.exp_add = False     # functional equation of exp on sums

    # -------------------------------------------------------------- types
    def fieldty(self, ty, f):
        fl = self.prog.fields(ty)
        if fl is not None:
            if f in fl:
                return fl[f][0]
        if ty.tn in ("std::pair",):
            return ty.args[0] if f == "first" else ty.args[1]
        if ty.tn == "std::tuple":
            return ty.args[int(f)]
        raise Unsupported("no field %s in %s" % (f, ty.p))

    def finite(self, name):
        if self.force_kind:
            return False
        for s in self.nonfinite:
            if s in name:
                return False
        return True

    def fact(self, f, trig=None):
        cs = consts(f)
        self.facts.append((frozenset([trig]) if trig else cs, cs, f))

    def pull_defs(self):
        while DEFFACTS:
            a, f = DEFFACTS.pop()
            self.fact(f, a.decl().name())

    def note_int(self, c, ty, idx):
        if ty.k == "enum":
            return
        if not idx:
            if not ty.s:
                self.fact(z3.And(c >= 0, c <= 2 ** ty.w - 1))
            elif self.intrange:
                self.fact(z3.And(c >= -2 ** (ty.w - 1), c <= 2 ** (ty.w - 1) - 1))
        elif not ty.s:
            self._lifted(c, idx, lambda x: z3.And(x >= 0, x <= 2 ** ty.w - 1))
        else:
            self._lifted(c, idx, lambda x: z3.And(x >= -2 ** (ty.w - 1), x <= 2 ** (ty.w - 1) - 1))

    def _lifted(self, c, idx, fn):
        vs = [z3.Const("q%d" % i, s) for i, s in enumerate(idx)]
        t = c
        for v in vs:
            t = z3.Select(t, v)
        self.fact(z3.ForAll(vs, fn(t), patterns=[t]))

    def note_len(self, n, idx):
        if not idx:
            self.fact(z3.And(n >= 0, n <= self.maxlen))
        else:
            self._lifted(n, idx, lambda x: z3.And(x >= 0, x <= self.maxlen))

    def note_kind(self, k, idx):
        if not idx:
            self.fact(z3.And(k >= 0, k <= 3))
        else:
            self._lifted(k, idx, lambda x: z3.And(x >= 0, x <= 3))

    # -------------------------------------------------------------- functions
    def uf(self, name, *sorts):
        key = (name,) + tuple(str(s) for s in sorts)
        d = self.ufs.get(key)
        if d is None:
            d = z3.Function(name, *sorts)
            self.ufs[key] = d
        return d

    def strlit(self, s):
        c = self.strlits.get(s)
        if c is None:
            c = z3.Const("str:" + s, Str)
            self.strlits[s] = c
        return c

    def sumfn(self, term, tag="sum"):
        """the finite sum F(lo,hi) = sum_{lo<=k<hi} term(k); term: z3 Int -> z3 Real"""
        kap = z3.Int("kappa!")
        body = z3.simplify(beta(term(kap)))
        key = body.sexpr()
        s = self.sums.get(key)
        if s is None:
            n = len(self.sums)
            d = z3.Function("%s%d!" % (tag, n), I, I, R)
            s = SumFn(self, d, kap, body)
            self.sums[key] = s
            self.sum_by_decl[d.name()] = s
        return s

    # -------------------------------------------------------------- checking
    def axioms(self, fs):
        out = []
        apps = {}
        for _ in range(3):
            new = {}
            for f in fs + out:
                for a in info(f)[2]:
                    if a[0] not in apps:
                        new[a[0]] = a
            if not new:
                break
            apps.update(new)
            out = self._axioms(list(apps.values()))
        return out

    def _axioms(self, apps):
        out = []
        sums = {}
        ex0 = self.uf("exp", R, R)
        exps, logs, sqrts, geos = [], [], [], []
        for (_, name, t) in apps:
            if name in self.sum_by_decl:
                sums.setdefault(name, []).append(t)
            elif name == "exp":
                exps.append(t)
            elif name == "log":
                logs.append(t)
            elif name == "geo":
                geos.append(t)
            elif name == "sqrt":
                sqrts.append(t)
        for name, ts in sums.items():
            F = self.sum_by_decl[name]
            for t in ts:
                out.append(z3.Implies(t.arg(1) <= t.arg(0), t == 0))
            for a in ts:
                for b in ts:
                    if a is b or not a.arg(0).eq(b.arg(0)):
                        continue
                    # b.hi == a.hi + 1
                    out.append(z3.Implies(z3.And(b.arg(1) == a.arg(1) + 1, a.arg(1) >= a.arg(0)),
                                          b == a + F.term(a.arg(1))))
                for b in ts:
                    if a is b:
                        continue
                    # chaining [lo,m)+[m,hi)
            los = [t for t in ts]
            if len(ts) <= 8:
                for a in ts:
                    for b in ts:
                        if a is b:
                            continue
                        # same hi, lo differs by one
                        if a.arg(1).eq(b.arg(1)):
                            out.append(z3.Implies(z3.And(b.arg(0) + 1 == a.arg(0), b.arg(0) < b.arg(1)),
                                                  b == a + F.term(b.arg(0))))
                        for c in ts:
                            if a is c or b is c:
                                continue
                            # a=[lo,m) b=[m,hi) c=[lo,hi)
                            if a.arg(0).eq(c.arg(0)) and b.arg(1).eq(c.arg(1)):
                                out.append(z3.Implies(z3.And(a.arg(1) == b.arg(0), a.arg(0) <= a.arg(1),
                                                             b.arg(0) <= b.arg(1)), c == a + b))
            # single-step unrolling at literal ends
            for t in ts:
                out.append(z3.Implies(t.arg(1) == t.arg(0) + 1, t == F.term(t.arg(0))))
        names = list(sums)
        if self.side_sums:
            names = []
        for i, a in enumerate(names):
            for t in sums[a]:
                F = self.sum_by_decl[a]
                out.append(F.nonneg(t))
                out.append(F.pos(t))
            for b in names[i + 1:]:
                F, G = self.sum_by_decl[a], self.sum_by_decl[b]
                for t in sums[a]:
                    for u in sums[b]:
                        if (t.arg(0).eq(u.arg(0)) and t.arg(1).eq(u.arg(1))):
                            out.append(ext_lemma(F, G, t, u))
                        elif len(sums[a]) * len(sums[b]) <= 12:
                            out.append(z3.Implies(z3.And(t.arg(0) == u.arg(0), t.arg(1) == u.arg(1)),
                                                  ext_lemma(F, G, t, u)))
                        scs = list(self.scales)
                        if self.exp_add:
                            scs += exp_factors(F, self.uf("exp", R, R)) + exp_factors(G, self.uf("exp", R, R))
                        for sc in scs:
                            if len(sums[a]) * len(sums[b]) <= 12:
                                out.append(z3.Implies(z3.And(t.arg(0) == u.arg(0), t.arg(1) == u.arg(1)),
                                                      scale_lemma(F, G, t, u, sc)))
                                out.append(z3.Implies(z3.And(t.arg(0) == u.arg(0), t.arg(1) == u.arg(1)),
                                                      scale_lemma(G, F, u, t, sc)))
        ex = self.uf("exp", R, R)
        for t in exps:
            out.append(t > 0)
        for i, a in enumerate(geos):
            c = a.arg(0)
            out.append(z3.Implies(a.arg(1) == 0, a == 1))
            out.append(z3.Implies(a.arg(1) == 1, a == c))
            out.append(z3.Implies(c > 0, a > 0))
            out.append(z3.Implies(z3.And(c >= 1, a.arg(1) >= 0), a >= 1))
            out.append(z3.Implies(z3.And(c > 0, c <= 1, a.arg(1) >= 0), a <= 1))
            if self.exp_triples and z3.is_app(c) and c.decl().eq(ex0):
                out.append(a == ex0(c.arg(0) * z3.ToReal(a.arg(1))))
            for b in geos[:i]:
                if not b.arg(0).eq(c):
                    continue
                for p, q in ((a, b), (b, a)):
                    out.append(z3.Implies(p.arg(1) == q.arg(1) + 1, p == q * c))
                    out.append(z3.Implies(z3.And(c > 1, q.arg(1) < p.arg(1)), q < p))
                    out.append(z3.Implies(z3.And(c > 0, c < 1, q.arg(1) < p.arg(1)), q > p))
        if self.exp_triples and len(exps) <= 16:
            for i, a in enumerate(exps):
                for b in exps[i:]:
                    if not a.eq(b):
                        out.append(z3.Implies(a.arg(0) + b.arg(0) == 0, a * b == 1))
                    for c in exps:
                        if not c.eq(a) and not c.eq(b):
                            out.append(z3.Implies(c.arg(0) == a.arg(0) + b.arg(0), c == a * b))
        if 1 < len(exps) <= (16 if self.exp_triples else 6) and not self.exp_add:
            for i, a in enumerate(exps):
                for b in exps[i + 1:]:
                    out.append((a.arg(0) < b.arg(0)) == (a < b))
                    out.append((a.arg(0) == b.arg(0)) == (a == b))
        for t in exps:
            if self.exp_add:
                break
            out.append((t.arg(0) >= 0) == (t >= 1))
            out.append((t.arg(0) > 0) == (t > 1))
        if self.exp_add:
            for t in exps:
                a = t.arg(0)
                if is_neg(a):
                    out.append(t * ex(a.arg(1)) == 1)
        for t in logs:
            out.append(z3.Implies(t.arg(0) > 0, ex(t) == t.arg(0)))
            out.append(z3.Implies(t.arg(0) > 0, (t >= 0) == (t.arg(0) >= 1)))
            out.append(z3.Implies(t.arg(0) > 0, (t > 0) == (t.arg(0) > 1)))
        if len(logs) <= 6:
            for i, a in enumerate(logs):
                for b in logs[i + 1:]:
                    out.append(z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), (a.arg(0) < b.arg(0)) == (a < b)))
        for t in sqrts:
            out.append(z3.Implies(t.arg(0) >= 0, z3.And(t >= 0, t * t == t.arg(0))))
        for fn in self.extra_axioms:
            out.extend(fn(apps))
        return out

    def side_lemmas(self, hyps, goal, tmo=1500, deadline=None):
        """conclusions about the finite sums occurring in an implication, each proved pointwise
        by its own query under the same hypotheses"""
        allf = list(hyps) + [goal]
        ex = self.uf("exp", R, R)
        apps = {}
        for f in allf:
            for a in info(f)[2]:
                if a[1] in self.sum_by_decl:
                    apps[a[0]] = a[2]
        ts = list(apps.values())
        k = z3.Int("side!k")
        out = []
        base = list(hyps)

        def prove(g, lo, hi):
            if deadline and time.time() > deadline:
                return False
            old, self.side_sums = self.side_sums, True
            try:
                return self.check(base + [lo <= k, k < hi], g, tmo) == "unsat"
            finally:
                self.side_sums = old
        goalsums = set()
        for a in info(goal)[2]:
            goalsums.add(a[0])
        for i, t in enumerate(ts):
            F = self.sum_by_decl[t.decl().name()]
            lo, hi = t.arg(0), t.arg(1)
            for u in ts[i + 1:]:
                G = self.sum_by_decl[u.decl().name()]
                if F is G and (lo.eq(u.arg(0)) or hi.eq(u.arg(1))):
                    continue
                d = None
                if not (lo.eq(u.arg(0)) and hi.eq(u.arg(1))):
                    qfh = [h for h in hyps if not hasq(h)]
                    if self.check(qfh, z3.And(lo == u.arg(0), hi == u.arg(1)), 300) != "unsat":
                        # same number of terms, shifted index
                        if self.check(qfh, hi - lo == u.arg(1) - u.arg(0), 300) != "unsat":
                            continue
                        d = u.arg(0) - lo
                Gk = G.term(k) if d is None else G.term(k + d)
                tried = False
                if prove(F.term(k) == Gk, lo, hi):
                    out.append(t == u)
                    continue
                scs = list(self.scales)
                if self.exp_add:
                    scs += exp_factors(F, ex) + exp_factors(G, ex)
                seen = set()
                for sc in scs:
                    if sc.get_id() in seen:
                        continue
                    seen.add(sc.get_id())
                    if prove(F.term(k) == sc * Gk, lo, hi):
                        out.append(t == sc * u)
                        break
                    if prove(Gk == sc * F.term(k), lo, hi):
                        out.append(u == sc * t)
                        break
        for t in ts:
            F = self.sum_by_decl[t.decl().name()]
            if prove(F.term(k) > 0, t.arg(0), t.arg(1)):
                out.append(z3.Implies(t.arg(0) < t.arg(1), t > 0))
                out.append(t >= 0)
            elif prove(F.term(k) >= 0, t.arg(0), t.arg(1)):
                out.append(t >= 0)
            if self.sum_bounds and prove(F.term(k) <= 1, t.arg(0), t.arg(1)):
                out.append(z3.Implies(t.arg(0) <= t.arg(1), t <= z3.ToReal(t.arg(1) - t.arg(0))))
        return out

    def assemble(self, hyps, goal):
        fs = list(hyps)
        if goal is not None:
            # universally quantified goals are decided for fresh constants
            while True:
                if z3.is_quantifier(goal) and goal.is_forall():
                    cs = [z3.Const("sk!%s" % goal.var_name(i), goal.var_sort(i)) for i in range(goal.num_vars())]
                    sk = self.skolems.setdefault((goal.get_id(),), (goal, cs))[1]
                    goal = beta(z3.substitute_vars(goal.body(), *reversed(sk)))
                elif z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_IMPLIES:
                    fs.append(goal.arg(0))
                    goal = goal.arg(1)
                else:
                    break
            fs.append(z3.Not(goal))
        if self.exp_add:
            fs = [expnorm(f, self.uf("exp", R, R)) for f in fs]
        ax = self.axioms(fs)
        if self.exp_add:
            ax = [expnorm(f, self.uf("exp", R, R)) for f in ax]
            ax = [expnorm(f, self.uf("exp", R, R)) for f in self.axioms(fs + ax)] + ax
        fs += ax
        # relevant facts
        cs = set()
        for f in fs:
            cs |= consts(f)
        self.pull_defs()
        todo = self.facts
        used = []
        changed = True
        while changed:
            changed = False
            rest = []
            for x in todo:
                if x[0] & cs:
                    used.append(x[2])
                    if not x[1] <= cs:
                        cs |= x[1]
                        changed = True
                else:
                    rest.append(x)
            todo = rest
        lits = [self.strlits[s] for s in self.strlits if ("str:" + s) in cs]
        if len(lits) > 1:
            used.append(z3.Distinct(*lits))
        return used + fs

    def check(self, hyps, goal, timeout=3000, model=False):
        """-> 'unsat' (goal proved), 'sat', 'unknown'"""
        if z3.is_true(goal):
            return "unsat"
        fs = self.assemble(hyps, goal)
        ab = nl_all(fs) if timeout > 200 else None
        if ab is not None:
            s = z3.Solver()
            s.set("timeout", int(200 * SLOW[0]))
            s.add(*fs)
            t0 = time.time()
            r = s.check()
            self.stats["z3"] += 1
            self.stats["z3_time"] += time.time() - t0
            self.last_solver = s
            if r != z3.unknown:
                return str(r)
            s = z3.Solver()
            s.set("timeout", int(min(timeout, 400) * SLOW[0]))
            s.add(*ab)
            t0 = time.time()
            r = s.check()
            self.stats["z3"] += 1
            self.stats["z3_time"] += time.time() - t0
            if r == z3.unsat:
                return "unsat"
        s = z3.Solver()
        s.set("timeout", int(timeout * SLOW[0]))
        s.add(*fs)
        t0 = time.time()
        r = s.check()
        self.stats["z3"] += 1
        self.stats["z3_time"] += time.time() - t0
        self.last_solver = s
        return str(r)

    def qf(self, st, cond, timeout=150):
        """cheap proof attempt of cond from the quantifier free part of the path condition"""
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            pass
        hyps = [p for p in st.pc if not hasq(p)]
        key = (tuple(h.get_id() for h in hyps), cond.get_id())
        c = self.qfcache.get(key)
        if c is not None:
            return c[0]
        cs = set()
        for f in hyps + [cond]:
            cs |= consts(f)
        used = []
        for tr, c2, f in self.facts:
            if tr & cs and not hasq(f):
                used.append(f)
        lits = [self.strlits[x] for x in self.strlits if ("str:" + x) in cs]
        if len(lits) > 1:
            used.append(z3.Distinct(*lits))
        s = z3.Solver()
        s.set("timeout", int(timeout * SLOW[0]))
        s.add(*hyps)
        s.add(*used)
        s.add(z3.Not(cond))
        t0 = time.time()
        r = s.check() == z3.unsat
        self.stats["z3"] += 1
        self.stats["z3_time"] += time.time() - t0
        self.qfcache[key] = (r, hyps, cond)
        return r

    def qf_inst(self, st, cond, timeout=400):
        """like qf, with the quantified facts of the path condition instantiated at the indices cond reads"""
        if self.qf(st, cond):
            return True
        idx = {}
        stack = [cond]
        seen = set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(1).sort() == I:
                    idx[x.arg(1).get_id()] = x.arg(1)
                stack += x.children()
        if not idx or len(idx) > 4:
            return False
        extra = []
        for p in st.pc:
            if z3.is_quantifier(p) and p.is_forall() and p.num_vars() == 1 and p.var_sort(0) == I and not hasq(p.body()):
                for t in idx.values():
                    extra.append(z3.substitute_vars(p.body(), t))
        if not extra:
            return False
        key = (tuple(h.get_id() for h in extra), cond.get_id(), "inst")
        c = self.qfcache.get(key)
        if c is not None:
            return c[0]
        s = z3.Solver()
        s.set("timeout", int(timeout * SLOW[0]))
        s.add(*[p for p in st.pc if not hasq(p)])
        s.add(*extra)
        s.add(z3.Not(cond))
        t0 = time.time()
        r = s.check() == z3.unsat
        self.stats["z3"] += 1
        self.stats["z3_time"] += time.time() - t0
        self.qfcache[key] = (r, extra, cond)
        return r


class SumFn:
    def __init__(self, W, decl, kap, body):
        self.W = W; self.d = decl; self.kap = kap; self.body = body

    def __call__(self, lo, hi):
        lo = iv(lo) if isinstance(lo, int) else lo
        hi = iv(hi) if isinstance(hi, int) else hi
        return self.d(z3.simplify(lo), z3.simplify(hi))

    def term(self, k):
        return z3.substitute(self.body, (self.kap, k))

    def pos(self, t):
        k = z3.Const(uniq("sk"), I)
        return z3.Or(t > 0, t.arg(1) <= t.arg(0), z3.And(t.arg(0) <= k, k < t.arg(1), self.term(k) <= 0))

    def nonneg(self, t):
        """sum >= 0 unless some term is negative (skolemised induction lemma)"""
        k = z3.Const(uniq("sk"), I)
        return z3.Or(t >= 0, z3.And(t.arg(0) <= k, k < t.arg(1), self.term(k) < 0))


def beta(f, memo=None):
    """unfold reads of definitional arrays"""
    memo = {} if memo is None else memo

    def go(x):
        i = x.get_id()
        r = memo.get(i)
        if r is not None:
            return r[0]
        if z3.is_quantifier(x) or not z3.is_app(x) or not x.num_args():
            r = x
        else:
            ch = [go(c) for c in x.children()]
            if x.decl().kind() == z3.Z3_OP_SELECT:
                r = _select(ch[0], ch[1])
                if r.get_id() != x.get_id() and not (z3.is_app(r) and r.decl().kind() == z3.Z3_OP_SELECT):
                    r = go(r)
            elif any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = x.decl()(*ch)
            else:
                r = x
        memo[i] = (r, x)
        return r
    return go(f)


def is_neg(a):
    return z3.is_mul(a) and a.num_args() == 2 and z3.is_rational_value(a.arg(0)) and a.arg(0).as_fraction() == -1


def expnorm(f, ex):
    """exp(a+b) -> exp(a)*exp(b), exp of a negated sum distributed"""
    memo = {}
    budget = [40]

    def go(x):
        i = x.get_id()
        r = memo.get(i)
        if r is not None:
            return r[0]
        if z3.is_quantifier(x):
            r = x
        elif z3.is_app(x) and x.num_args():
            ch = [go(c) for c in x.children()]
            if x.decl().eq(ex):
                a = z3.simplify(ch[0], som=True)
                it = find_ite(a)
                if it is not None and budget[0] > 0:
                    budget[0] -= 1
                    c, p, q = it.children()
                    r = z3.If(c, go(ex(z3.substitute(a, (it, p)))), go(ex(z3.substitute(a, (it, q)))))
                elif z3.is_add(a):
                    r = z3.Product(*[ex(c) for c in a.children()])
                elif z3.is_rational_value(a) and a.as_fraction() == 0:
                    r = z3.RealVal(1)
                else:
                    r = ex(a)
            else:
                r = x.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, x.children())) else x
        else:
            r = x
        memo[i] = (r, x)
        return r
    return go(f)


def find_ite(a):
    """an if-then-else of sort Real among the summands of a (also under a constant factor)"""
    for c in (a.children() if z3.is_add(a) else [a]):
        if z3.is_mul(c) and c.num_args() == 2 and isnum(c.arg(0)):
            c = c.arg(1)
        if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
            return c
    return None


def exp_factors(F, ex):
    """products of exp(c), c independent of the index, that occur in F's term"""
    if getattr(F, "_fac", None) is not None:
        return F._fac
    out = {}
    stack = [expnorm(F.body, ex)]
    while stack:
        x = stack.pop()
        if z3.is_app(x):
            if z3.is_mul(x):
                fs = [c for c in x.children() if z3.is_app(c) and c.decl().eq(ex) and "kappa!" not in consts(c)]
                if fs:
                    p = z3.Product(*fs) if len(fs) > 1 else fs[0]
                    out[p.get_id()] = p
            elif x.decl().eq(ex):
                continue
            stack.extend(x.children())
    F._fac = list(out.values())
    return F._fac


def scale_lemma(F, G, t, u, c):
    """c * sum G == sum F unless some term differs"""
    k = z3.Const(uniq("sk"), I)
    return z3.Or(t == c * u, z3.And(t.arg(0) <= k, k < t.arg(1), F.term(k) != c * G.term(k)))


def ext_lemma(F, G, t, u):
    k = z3.Const(uniq("sk"), I)
    return z3.Or(t == u, z3.And(t.arg(0) <= k, k < t.arg(1), F.term(k) != G.term(k)))


_keep = []


def info(f):
    i = f.get_id()
    r = _info.get(i)
    if r is not None:
        return r
    # iterative post-order
    stack = [f]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _info:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            ch = [x.body()]
        elif z3.is_app(x):
            ch = x.children()
        else:
            ch = []
        pend = [c for c in ch if c.get_id() not in _info]
        if pend:
            stack.extend(pend)
            continue
        cs = set(); q = z3.is_quantifier(x); apps = {}; bound = z3.is_var(x)
        hasvar = bound
        for c in ch:
            ci = _info[c.get_id()]
            cs |= ci[0]
            q = q or ci[1]
            for a in ci[2]:
                apps[a[0]] = a
            hasvar = hasvar or ci[3]
        if z3.is_quantifier(x):
            hasvar = False  # our quantifiers are closed
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if x.num_args() == 0:
                    cs = cs | {d.name()}
                elif not hasvar:
                    apps[xi] = (xi, d.name(), x)
        _info[xi] = (frozenset(cs), q, tuple(apps.values()), hasvar)
        _keep.append(x)
        stack.pop()
    return _info[i]


def consts(f):
    return info(f)[0]


def hasq(f):
    return info(f)[1]


def z3cli_check(smt, timeout_s, opts=()):
    """the z3 4.8.12 binary: other instantiation heuristics than the z3 5 of the Python bindings"""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write(smt)
        p = fh.name
    try:
        r = subprocess.run(["/usr/bin/z3" if os.path.exists("/usr/bin/z3") else "z3", "-T:%d" % max(1, int(timeout_s))] + list(opts) + [p],
                           capture_output=True, text=True, timeout=timeout_s + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(p)


def cvc5_check(smt, timeout_s):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
        fh.write("(set-logic ALL)\n" + smt)
        p = fh.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout_s * 1000), p], capture_output=True, text=True,
                           timeout=timeout_s + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout.strip() else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(p)


# ---- products and quotients of variable terms as uninterpreted functions (weaker, hence sound for proving)
_nl = {}
_nlvars = [0]
_NM = {z3.RealSort().name(): z3.Function("$mul", z3.RealSort(), z3.RealSort(), z3.RealSort()),
       z3.IntSort().name(): z3.Function("$imul", z3.IntSort(), z3.IntSort(), z3.IntSort())}
_NI = z3.Function("$inv", z3.RealSort(), z3.RealSort())


def _nlnum(x):
    return z3.is_rational_value(x) or z3.is_int_value(x)


def nl_abs(f):
    """f with every nonlinear product/quotient abstracted; the same object when there is none"""
    stack = [f]
    while stack:
        x = stack[-1]
        xi = x.get_id()
        if xi in _nl:
            stack.pop()
            continue
        if z3.is_quantifier(x):
            vs = []
            for j in range(x.num_vars()):
                _nlvars[0] += 1
                vs.append(z3.Const("nl!v%d" % _nlvars[0], x.var_sort(j)))
            rev = list(reversed(vs))
            b = z3.substitute_vars(x.body(), *rev)
            nb = nl_abs(b)
            if nb is b or nb.eq(b):
                r = x
            else:
                pats = [nl_abs(z3.substitute_vars(p, *rev)) for p in
                        [c for j in range(x.num_patterns()) for c in [x.pattern(j)] if c.num_args() == 1] for p in p.children()]
                pats = [p for p in pats if all(str(v) in consts(p) for v in vs)]
                if x.is_lambda():
                    r = z3.Lambda(vs, nb)
                else:
                    r = (z3.ForAll if x.is_forall() else z3.Exists)(vs, nb, **({"patterns": pats} if pats and x.is_forall() else {}))
            _nl[xi] = (x, r)
            stack.pop()
            continue
        if not z3.is_app(x) or x.num_args() == 0:
            _nl[xi] = (x, x)
            stack.pop()
            continue
        ch = x.children()
        pend = [c for c in ch if c.get_id() not in _nl]
        if pend:
            stack.extend(pend)
            continue
        nc = [_nl[c.get_id()][1] for c in ch]
        k = x.decl().kind()
        r = None
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV):
            if k == z3.Z3_OP_MUL:
                fac = list(nc)
            elif _nlnum(nc[1]):
                fac = None
            else:
                fac = [nc[0], _NI(nc[1])]
            if fac is not None and sum(1 for y in fac if not _nlnum(y)) >= 2 or fac is not None and k == z3.Z3_OP_DIV:
                co, terms = None, []
                todo = list(fac)
                m = _NM[x.sort().name()]
                while todo:
                    y = todo.pop(0)
                    if _nlnum(y):
                        co = y if co is None else z3.simplify(co * y)
                    elif z3.is_app(y) and y.decl().eq(m):
                        todo = [y.arg(0), y.arg(1)] + todo
                    elif z3.is_mul(y):
                        todo = list(y.children()) + todo
                    else:
                        terms.append(y)
                terms.sort(key=lambda y: y.get_id())
                t = terms[-1]
                for y in terms[-2::-1]:
                    t = m(y, t)
                r = t if co is None else co * t
        if r is None:
            r = x if all(a.eq(b) for a, b in zip(nc, ch)) else x.decl()(*nc) if k not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_SUB) else \
                {z3.Z3_OP_ADD: lambda: z3.Sum(nc) if len(nc) > 1 else nc[0], z3.Z3_OP_MUL: lambda: z3.Product(nc), z3.Z3_OP_AND: lambda: z3.And(*nc),
                 z3.Z3_OP_OR: lambda: z3.Or(*nc), z3.Z3_OP_SUB: lambda: nc[0] - nc[1] if len(nc) == 2 else nc[0] - z3.Sum(nc[1:])}[k]()
        _nl[xi] = (x, r)
        stack.pop()
    return _nl[f.get_id()][1]


def nl_all(fs):
    """-> abstracted formulas, or None when nothing is nonlinear"""
    try:
        out = [nl_abs(f) for f in fs]
    except z3.Z3Exception:
        return None
    return None if all(a is b or a.eq(b) for a, b in zip(out, fs)) else out
