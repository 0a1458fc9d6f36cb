"""Loop rule: frame inference, candidate invariants (recurrence solving, guards,
bounds, supplied templates), Houdini filtering, final pass with obligations."""
import re as _re
import z3, time, os
from .values import *
from .ir import Unsupported
from .theory import consts, hasq, beta
from .engine import St, TRUE, FALSE, INTTY
from . import fl

TMO = 1500


def run_loop(ex, st, spec):
    if not ex.nounroll:
        r = try_unroll(ex, st, spec)
        if r is not None:
            return r
    return Loop(ex, st, spec).run()


def try_unroll(ex, st, spec):
    nob = len(ex.obs)
    s0 = st.copy()
    wl0 = None if ex.wlog is None else len(ex.wlog)
    sink = []
    ex.sinks.append(sink)
    out = []
    cur = [s0]
    n = 0
    ok = True
    try:
        while cur:
            nxt = []
            for s in cur:
                cs = spec.cond(s)
                for s1, c in cs:
                    c = z3.simplify(c)
                    if z3.is_true(c) or (not z3.is_false(c) and n < 3 and ex.W.qf(s1, c)):
                        nxt.append(s1)
                    elif z3.is_false(c) or ex.W.qf(s1, z3.simplify(z3.Not(c))):
                        out.append(("n", s1, None))
                    else:
                        ok = False
                        break
                if not ok:
                    break
            if not ok:
                break
            n += 1
            if n > ex.unroll_max or len(nxt) > 64:
                ok = False
                break
            cur = []
            for s in nxt:
                for k, s2, v in spec.body(s):
                    if k in ("n", "c"):
                        cur += spec.inc(s2)
                    elif k == "b":
                        out.append(("n", s2, None))
                    else:
                        out.append((k, s2, v))
            if n == 1 and cur:
                # only go on unrolling when the condition stays decided
                pass
    finally:
        ex.sinks.pop()
    if not ok:
        del ex.obs[nob:]
        if wl0 is not None:
            del ex.wlog[wl0:]
        return None
    ex.sinks[-1].extend(sink)
    return out


class View:
    def __init__(self, kind, hc, loc, name):
        self.kind = kind    # int fl bool arr
        self.hc = hc        # head constant
        self.loc = loc
        self.name = name


class Loop:
    def __init__(self, ex, st, spec):
        self.ex = ex; self.st = st; self.spec = spec; self.W = ex.W
        self.mark = ex.cellctr
        self.mods = []
        self.cands = []

    # ---- locations
    def norm(self, cell, path):
        out = []
        for p in path:
            if p[0] == "i":
                out.append(("i",))
            elif p[0] == "k":
                out.append(("k",))
            else:
                out.append(p)
        return (cell, tuple(out))

    def addmod(self, loc):
        for m in self.mods:
            if m[0] == loc[0] and loc[1][:len(m[1])] == m[1]:
                return False
        self.mods = [m for m in self.mods if not (m[0] == loc[0] and m[1][:len(loc[1])] == loc[1])]
        self.mods.append(loc)
        return True

    def havoc_val(self, v, path, ty, name, idx=()):
        W = self.W
        if not path:
            return self.fresh_like(v, ty, name, idx)
        p = path[0]
        if p[0] == "f":
            if isinstance(v, TupleV):
                raise Unsupported("havoc of tuple")
            ft = W.fieldty(v.ty, p[1])
            return v.set(p[1], self.havoc_val(v.get(p[1]), path[1:], ft, name + "." + p[1], idx))
        if p[0] == "i":
            return VecV(v.elty, v.n, self.havoc_val(v.el, path[1:], v.elty, name + "[]", idx + (I,)))
        if p[0] == "k":
            # subscripting may insert: domain and size change too
            ks = key_sort(v.kty)
            return MapV(v.kty, v.vty, v.dom, self.havoc_val(v.val, path[1:], v.vty, name + "[]", idx + (ks,)), v.n,
                        v.enum)
        if p[0] == "d":
            return SPtrV(v.ty, v.null, self.havoc_val(v.val, path[1:], v.ty.t if v.ty.k == "ptr" else v.ty.args[0],
                                                      name + "->", idx))
        raise Unsupported("havoc path")

    def fresh_like(self, v, ty, name, idx):
        W = self.W
        if isinstance(v, IterV):
            return IterV(v.lv, z3.Const(uniq(name + "@"), I), v.rev, v.elty)
        if isinstance(v, PtrV):
            raise Unsupported("loop-modified pointer")
        if isinstance(v, (ClosV, FnRef, PyV)):
            raise Unsupported("loop-modified closure")
        if isinstance(v, Fl):
            r = z3.Const(uniq(name), v.r.sort())
            if v.k is None and name not in self.needkind:
                return Fl(r)
            ks = r.sort()
            k = z3.Const(uniq(name + "#k"), v.k.sort() if v.k is not None else kindsort(v.r.sort()))
            W.note_kind(k, idx)
            return Fl(r, k)
        if isinstance(v, z3.ExprRef):
            c = z3.Const(uniq(name), v.sort())
            if ty is not None and ty.k == "int":
                W.note_int(c, ty, idx)
            return c
        if isinstance(v, VecV):
            fixed = ty is not None and (ty.k == "arr" or ty.tn == "std::array")
            n = v.n
            if not fixed:
                n = z3.Const(uniq(name + "#n"), v.n.sort())
                W.note_len(n, idx)
            return VecV(v.elty, n, self.fresh_like(v.el, v.elty, name + "[]", idx + (I,)))
        if isinstance(v, (StructV, SPtrV, MapV, OpaqueV)):
            t = v.ty if isinstance(v, (StructV, SPtrV)) else ty
            if t is None:
                raise Unsupported("havoc of untyped location")
            return fresh(W, name, t, idx)
        raise Unsupported("havoc of %r" % type(v))

    def havoc(self, st):
        ex = self.ex
        s = st.copy()
        for cell, path in self.mods:
            v = s.mem[cell]
            ty = ex.cty.get(cell)
            s.mem[cell] = self.havoc_val(v, path, ty, "L%d_%d" % (ex.line, cell))
        return s

    # parallel walk: head constants and their current values
    def pairs(self, hv, cv, out, ok=True):
        if hv is cv:
            return
        if isinstance(hv, Fl):
            if not isinstance(cv, Fl):
                raise Unsupported("kind change")
            if not hv.r.eq(cv.r):
                out.append((hv.r, cv.r))
            if hv.k is not None:
                if cv.k is None:
                    z = iv(0)
                    if hv.k.sort() != I:
                        z = constkind(hv.k.sort())
                    out.append((hv.k, z))
                elif not hv.k.eq(cv.k):
                    out.append((hv.k, cv.k))
        elif isinstance(hv, z3.ExprRef):
            if not hv.eq(cv):
                out.append((hv, cv))
        elif isinstance(hv, VecV):
            self.pairs(hv.n, cv.n, out); self.pairs(hv.el, cv.el, out)
        elif isinstance(hv, IterV):
            if hv.lv.cell != cv.lv.cell or not same_path(hv.lv.path, cv.lv.path):
                raise Unsupported("iterator changes container")
            self.pairs(hv.idx, cv.idx, out)
        elif isinstance(hv, StructV):
            keys = set(hv.over)
            src = hv.src
            if isinstance(src, FreshSrc):
                keys |= set(src.memo)
            keys |= set(hv.memo)
            fs = self.ex.prog.fields(hv.ty)
            for f in sorted(keys):
                a = hv.get(f)
                if a is None:
                    continue
                try:
                    b = cv.get(f)
                except Unsupported:
                    continue
                self.pairs(a, b, out)
        elif isinstance(hv, MapV):
            self.pairs(hv.dom, cv.dom, out); self.pairs(hv.n, cv.n, out)
            if hv.val is not None:
                self.pairs(hv.val, cv.val, out)
        elif isinstance(hv, SPtrV):
            if isinstance(cv, PtrV):
                raise Unsupported("pointer kind change in loop")
            self.pairs(hv.null, cv.null, out)
            if hv._val is not None:
                self.pairs(hv._val, cv.val, out)
        elif isinstance(hv, OpaqueV):
            self.pairs(hv.e, cv.e, out)
        elif isinstance(hv, TupleV):
            for a, b in zip(hv.els, cv.els):
                if not isinstance(a, LV):
                    self.pairs(a, b, out)
        elif isinstance(hv, (PtrV, ClosV, FnRef, PyV)) or hv is None:
            if hv is not cv and not isinstance(hv, (ClosV, FnRef, PyV)):
                raise Unsupported("pointer changes in loop")
        else:
            raise Unsupported("pairs %r" % type(hv))

    def subst(self, s):
        out = []
        for cell in {c for c, _ in self.mods}:
            if cell in s.mem:
                self.pairs(self.head.mem[cell], s.mem[cell], out)
        return out

    def at(self, f, s):
        ps = [(a, b) for a, b in self.subst(s) if isconst(a)]
        return z3.substitute(f, *ps) if ps else f

    # ---- one iteration
    def iterate(self, s):
        """-> (ends, exits, others) ; exits: cond false"""
        ex = self.ex
        ends, exits, others = [], [], []
        for s1, c in self.spec.cond(s):
            for s2, t in ex.branch(s1, c):
                if not t:
                    exits.append(s2)
                    continue
                for k, s3, v in self.spec.body(s2):
                    if k in ("n", "c"):
                        ends += [(x) for x in self.spec.inc(s3)]
                    elif k == "b":
                        others.append(("n", s3, None))
                    else:
                        others.append((k, s3, v))
        if len(ends) > 24:
            m = ex.merge_states(ends)
            if m is not None:
                ends = [m]
        return ends, exits, others

    def quiet_iter(self, s):
        ex = self.ex
        ex.quiet += 1
        ex.sinks.append([])
        wl, ex.wlog = ex.wlog, []
        try:
            r = self.iterate(s)
            log = ex.wlog
            thr = ex.sinks[-1]
        finally:
            ex.quiet -= 1
            ex.sinks.pop()
            ex.wlog = wl
        return r, log, thr

    def discover(self):
        self.needkind = set()
        for _ in range(12):
            s = self.havoc(self.st)
            mode, self.ex.discovering = getattr(self.ex, "discovering", False), True
            try:
                (ends, exits, others), log, thr = self.quiet_iter(s)
            finally:
                self.ex.discovering = mode
            ch = False
            for cell, path in log:
                if cell <= self.mark and cell in self.st.mem:
                    ch |= self.addmod(self.norm(cell, path))
            # float kinds appearing in the body
            for e in ends:
                for cell, path in self.mods:
                    try:
                        a = s.mem[cell]; b = e.mem[cell]
                        if kindmismatch(a, b):
                            nm = "L%d_%d" % (self.ex.line, cell)
                            ch |= self.markkind(a, b, cell)
                    except (KeyError, Unsupported):
                        pass
            if not ch:
                return
        raise Unsupported("frame inference does not converge")

    def markkind(self, a, b, cell):
        # force kinds: replace the entry value by one with explicit kinds
        v = self.st.mem[cell]
        self.st = self.st.copy()
        w = addkinds(v, b)
        if w is None:
            return False
        self.st.mem[cell] = w
        return True

    # ---- candidates
    def assume(self, s, cands):
        for c in cands:
            s.add(c[1])
        return s

    def run(self):
        ex = self.ex
        W = self.W
        t0 = time.time()
        self.line = ex.line
        self.usertried = set()
        self.depth = ex.loopdepth
        ex.loopdepth += 1
        try:
            return self.run2(t0)
        finally:
            ex.loopdepth -= 1

    def run2(self, t0):
        ex = self.ex
        W = self.W
        self.discover()
        if getattr(ex, "discovering", False):
            # outer frame inference only needs the havoc
            h = self.havoc(self.st)
            ends, exits, others = self.iterate(h)
            if ex.wlog is not None:
                for m in self.mods:
                    ex.wlog.append(m)
            return [("n", s, None) for s in exits] + others
        self.head = self.havoc(self.st)
        self.basepc = len(self.head.pc)
        self.hmark = uniq("mark")
        # the first run materialises lazily created components
        r, log, thr = self.quiet_iter(self.head.copy())
        self.collect_views()
        self.entry_ok_cache = {}
        kept = []
        # phase A: integer facts; monotonicity first, it decides signed/unsigned conversions in the bounds
        mono = self.houdini(self.mono_cands())
        kept = self.houdini(mono + self.int_cands(r, mono), fixed=mono)
        # phase B: recurrences, repeatedly
        seen = {c[1].get_id() for c in kept}
        self.cf = []
        self.arrforms = {}
        for rnd in range(4):
            h = self.assume(self.head.copy(), kept)
            r, log, thr = self.quiet_iter(h)
            self.collect_views()
            new = [c for c in self.rec_cands(r, thr, h) + self.user_cands(r, rnd) if c[1].get_id() not in seen]
            if not new:
                break
            for c in new:
                seen.add(c[1].get_id())
            n0 = len(kept)
            kept = self.houdini(kept + new, fixed=kept)
            if len(kept) == n0:
                break
        # final pass
        h = self.assume(self.head.copy(), kept)
        if ex.trace:
            print("loop@%d in %s: mods=%s kept=%s" % (self.line, ex.func, self.mods, [c[0] for c in kept]))
            if ex.trace == "2":
                for c in kept:
                    print("    ", c[0], ":", c[1])
        wl = ex.wlog
        if wl is not None:
            ex.wlog = []
        try:
            ends, exits, others = self.iterate(h)
        finally:
            if wl is not None:
                ex.wlog = wl
                for m in self.mods:
                    wl.append(m)
        ex.loop_stats.append((ex.func, self.line, len(kept), round(time.time() - t0, 2)))
        out = []
        af = [self.arrforms[c[1].get_id()] for c in kept if c[1].get_id() in self.arrforms]
        for s in exits:
            out.append(("n", self.close(s, af), None))
        return out + others

    def close(self, s, af=()):
        s = self.close_(s)
        if not af:
            return s
        # arrays with a closed form become definitions
        ic = self.counter()
        rep = getattr(self, "_rep", {})
        pairs = []
        for hc, kq, body, _ in af:
            b = body
            if rep:
                b = z3.substitute(b, *[(a, c) for a, c in rep.values()])
            if str(ic[0].hc) in consts(b):
                return s
            if any(str(hc2) in consts(b) for hc2, _, _, _ in af):
                continue
            pairs.append((hc, defarr(b, kq)))
        if pairs:
            memo = {}
            s.pc = [beta(z3.substitute(c, *pairs), memo) for c in s.pc]
            s.pc = [c for c in s.pc if not z3.is_true(c)]
            for cell in {c for c, _ in self.mods}:
                s.mem[cell] = subst_val(s.mem[cell], pairs)
        return s

    def close_(self, s):
        """use equalities decided at exit: counter == bound"""
        self._rep = {}
        for v in self.views:
            if v.kind != "int":
                continue
            for atom in getattr(self, "bounds", []):
                for a, b in ((atom[0], atom[1]), (atom[1], atom[0]), (atom[0], z3.simplify(atom[1] - 1)), (atom[1], z3.simplify(atom[0] - 1)),
                             (atom[0], z3.simplify(atom[1] + 1)), (atom[1], z3.simplify(atom[0] + 1))):
                    if a.eq(v.hc) and not mentions(b, [x.hc for x in self.views]):
                        if self.ex.qf(s, a == b):
                            pairs = [(a, b)]
                            self._rep = {str(a): (a, b)}
                            s.pc = [z3.substitute(c, *pairs) for c in s.pc]
                            s.pc = [c for c in s.pc if not z3.is_true(c)]
                            for cell in {c for c, _ in self.mods}:
                                s.mem[cell] = subst_val(s.mem[cell], pairs)
                            return s
        return s

    def collect_views(self):
        self.views = []
        names = {}
        for cell, path in self.mods:
            v = self.head.mem[cell]
            self.view(v, path, (cell, ()), names)
        self.hcs = {str(v.hc): v for v in self.views}

    def view(self, v, path, loc, names):
        if path:
            p = path[0]
            if p[0] == "f":
                self.view(v.get(p[1]), path[1:], (loc[0], loc[1] + (p,)), names)
            elif p[0] == "i":
                self.view(v.el, path[1:], (loc[0], loc[1] + (p,)), names)
            elif p[0] == "k":
                self.view(v.val, path[1:], (loc[0], loc[1] + (p,)), names)
            elif p[0] == "d":
                self.view(v.val, path[1:], (loc[0], loc[1] + (p,)), names)
            return
        if isinstance(v, Fl):
            if isconst(v.r):
                self.views.append(View("fl" if v.r.sort() == R else "arr", v.r, loc, "fl"))
                if v.k is not None and isconst(v.k):
                    self.views.append(View("kind" if v.k.sort() == I else "arr", v.k, loc, "k"))
        elif isinstance(v, z3.ExprRef):
            if isconst(v):
                k = "int" if v.sort() == I else "bool" if v.sort() == B else "arr" if v.sort().kind() == z3.Z3_ARRAY_SORT else "other"
                self.views.append(View(k, v, loc, "v"))
        elif isinstance(v, VecV):
            self.view(v.n, (), (loc[0], loc[1] + (("#n",),)), names)
            self.view(v.el, (), (loc[0], loc[1] + (("i",),)), names)
        elif isinstance(v, IterV):
            self.view(v.idx, (), loc, names)
        elif isinstance(v, StructV):
            ks = set(v.over) | set(v.memo)
            if isinstance(v.src, FreshSrc):
                ks |= set(v.src.memo)
            for f in sorted(ks):
                x = v.get(f)
                if x is not None:
                    self.view(x, (), (loc[0], loc[1] + (("f", f),)), names)
        elif isinstance(v, MapV):
            self.view(v.dom, (), (loc[0], loc[1] + (("#dom",),)), names)
            self.view(v.n, (), (loc[0], loc[1] + (("#n",),)), names)
            if v.val is not None:
                self.view(v.val, (), (loc[0], loc[1] + (("k",),)), names)
        elif isinstance(v, SPtrV):
            self.view(v.null, (), loc, names)
            if v._val is not None:
                self.view(v._val, (), (loc[0], loc[1] + (("d",),)), names)
        elif isinstance(v, OpaqueV):
            pass

    def entry(self, hc):
        """value of a head constant at loop entry"""
        e = self.entry_map()
        return e.get(str(hc))

    def entry_map(self):
        ps = self.subst(self.st)
        return {str(a): b for a, b in ps if isconst(a)}

    def houdini(self, cands, fixed=()):
        ex = self.ex
        W = self.W
        live = []
        done = set()
        fixedids = {id(c) for c in fixed}
        for c in cands:
            if c[1].get_id() in done:
                continue
            done.add(c[1].get_id())
            if id(c) in fixedids:
                live.append(c)
                continue
            g = self.at(c[1], self.st)
            if z3.is_true(z3.simplify(g)) if not hasq(g) else False:
                live.append(c)
                continue
            if self.chk(self.st.pc, g) == "unsat" or self.hard(c, self.st.pc, g):
                live.append(c)
            elif ex.trace == "2":
                print("  drop at entry:", c[0])
        while live:
            h = self.assume(self.head.copy(), live)
            (ends, exits, others), log, thr = self.quiet_iter(h)
            bad = set()
            for e in ends:
                ps = [(a, b) for a, b in self.subst(e) if isconst(a)]
                for j, c in enumerate(live):
                    if j in bad or id(c) in fixedids:
                        continue
                    g = z3.substitute(c[1], *ps) if ps else c[1]
                    if self.chk(e.pc, g) != "unsat" and not self.hard(c, e.pc, g):
                        bad.add(j)
                        if ex.trace == "2":
                            print("  drop at step:", c[0])
            if not bad:
                break
            live = [c for j, c in enumerate(live) if j not in bad]
        return live

    def hard(self, c, hyps, g):
        """second attempt for a supplied invariant: instantiation by patterns only, then cvc5"""
        if not self.ex.hard_inv or not c[0].startswith("user"):
            return False
        from .theory import cvc5_check, z3cli_check
        fs = self.W.assemble(hyps, g)
        s = z3.Solver()
        s.set("timeout", 1500)
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        s.add(*fs)
        if s.check() == z3.unsat:
            return True
        s = z3.Solver()
        s.add(*fs)
        smt = s.to_smt2()
        return z3cli_check(smt, 4) == "unsat" or cvc5_check(smt, 3) == "unsat"

    def chk(self, hyps, g, tmo=None):
        if not hasq(g):
            g = z3.simplify(g)
            if z3.is_true(g):
                return "unsat"
            if tmo is None and intonly(g):
                # index arithmetic: quick when it holds
                tmo = 400
        return self.W.check(hyps, g, tmo or TMO)

    def mono_cands(self):
        em = self.entry_map()
        out = []
        for v in self.views:
            if v.kind == "int":
                a, a0 = v.hc, em.get(str(v.hc))
                if a0 is None:
                    continue
                out.append((">=entry", a >= a0))
                out.append(("<=entry", a <= a0))
            if v.kind == "kind":
                out.append(("finite", v.hc == 0))
        return out

    def int_cands(self, r, mono=()):
        ex = self.ex
        out = []
        em = self.entry_map()
        ints = [v for v in self.views if v.kind == "int"]
        self.bounds = []
        # atoms of the loop condition
        ex.quiet += 1
        ex.sinks.append([])
        try:
            cs = self.spec.cond(self.assume(self.head.copy(), mono))
        finally:
            ex.quiet -= 1
            ex.sinks.pop()
        atoms = []
        for s, c in cs:
            for a in atoms_of(c):
                atoms.append(a)
        seen = set()
        for v in ints:
            a, a0 = v.hc, em.get(str(v.hc))
            if a0 is None:
                continue
        for (L, Rr) in atoms:
            self.bounds.append((L, Rr))
            for n, f in (("<=", L <= Rr), ("<=+1", L <= Rr + 1), (">=", L >= Rr), (">=-1", L >= Rr - 1)):
                out.append(("bound" + n, f))
        for v in self.views:
            if v.kind == "bool":
                e0 = em.get(str(v.hc))
                if e0 is not None:
                    out.append(("bool=entry", v.hc == e0))
            if v.kind == "arr" and v.hc.sort().range() == I and v.name == "k":
                k = z3.Const("kq", I)
                e0 = em.get(str(v.hc))
                out.append(("finite[]", z3.ForAll([k], z3.Select(v.hc, k) == 0, patterns=[z3.Select(v.hc, k)])))
        # linear relations between constant-step counters
        ends = r[0]
        steps = {}
        for v in ints:
            st_ = set()
            for e in ends:
                d = dict((str(a), b) for a, b in self.subst(e))
                x = d.get(str(v.hc), v.hc)
                q = z3.simplify(x - v.hc)
                st_.add(q.as_long() if isnum(q) else None)
            steps[str(v.hc)] = st_
        self.steps = steps
        const = [v for v in ints if len(steps[str(v.hc)]) == 1 and None not in steps[str(v.hc)]
                 and list(steps[str(v.hc)])[0] != 0]
        self.counters = const
        for i, v in enumerate(const):
            sv = list(steps[str(v.hc)])[0]
            for w in const[:i]:
                sw = list(steps[str(w.hc)])[0]
                v0, w0 = em.get(str(v.hc)), em.get(str(w.hc))
                if v0 is None or w0 is None:
                    continue
                out.append(("linear", (v.hc - v0) * sw == (w.hc - w0) * sv))
        var = [v for v in ints if v not in const and None not in steps[str(v.hc)] and steps[str(v.hc)]]
        for v in var:
            ss = steps[str(v.hc)]
            if min(ss) >= 0 and max(ss) > 0:
                for w in const:
                    sw = list(steps[str(w.hc)])[0]
                    v0, w0 = em.get(str(v.hc)), em.get(str(w.hc))
                    if sw > 0 and v0 is not None and w0 is not None:
                        out.append(("lin<=", (v.hc - v0) * sw <= (w.hc - w0) * max(ss)))
        # lengths equal to entry and pairs of lengths
        return out

    def user_cands(self, r, rnd):
        ex = self.ex
        if ex.loopctx is None:
            return []
        lc = LC(self, r)
        out = []
        for x in ex.loopctx(lc, rnd) or []:
            # bound variables get fresh names: the same candidate again is recognised by its text
            names = {}
            t = _re.sub(r"\b[A-Za-z]+_\d+\b", lambda m: names.setdefault(m.group(0), "q%d" % len(names)), x[1].sexpr())
            if t in self.usertried:
                continue
            self.usertried.add(t)
            out.append(("user:" + x[0], x[1]))
        return out

    def iscounter(self, v):
        return any(str(w.hc) == str(v.hc) for w in self.counters)

    # ---- recurrences
    def counter(self):
        em = self.entry_map()
        for v in self.counters:
            s = list(self.steps[str(v.hc)])[0]
            if s in (1, -1) and em.get(str(v.hc)) is not None and v.loc[1][-1:] != (("#n",),):
                return v, s, em[str(v.hc)]
        for v in self.counters:
            s = list(self.steps[str(v.hc)])[0]
            if s in (1, -1) and em.get(str(v.hc)) is not None:
                return v, s, em[str(v.hc)]
        return None

    def deps(self, e):
        return {n for n in consts(e) if n in self.hcs}

    def newconsts(self, e):
        m = int(self.hmark.split("!")[-1])
        for n in consts(e):
            if "!" in n and n not in self.hcs:
                try:
                    if int(n.rsplit("!", 1)[1]) > m and not n.startswith("def!"):
                        return True
                except ValueError:
                    pass
        return False

    def rec_cands(self, r, thr, h):
        out = []
        ends, exits, others = r
        c = self.counter()
        if c is None or not ends:
            return out
        cv, step, i0 = c
        ic = cv.hc
        em = self.entry_map()
        # closed forms of other counters in terms of ic
        cf = list(self.cf)
        have = {str(a) for a, _ in cf}
        for v in self.counters:
            if v is cv or str(v.hc) in have:
                continue
            s = list(self.steps[str(v.hc)])[0]
            v0 = em.get(str(v.hc))
            if v0 is None:
                continue
            cf.append((v.hc, z3.simplify(v0 + (ic - i0) * s * step)))
            have.add(str(v.hc))
        pc0 = len(h.pc)
        conds = []
        subs = []
        for e in ends:
            extra = e.pc[pc0:]
            extra = [x for x in extra if not self.newconsts(x) and not hasq(x)]
            conds.append(extra)
            subs.append({str(a): b for a, b in self.subst(e)})

        def S(x):
            for _ in range(3):
                y = z3.substitute(x, *cf) if cf else x
                if y.eq(x):
                    break
                x = y
            return x

        def merged(vals):
            """one expression over the paths"""
            if all(v.eq(vals[0]) for v in vals):
                return vals[0]
            val = vals[-1]
            for v, cs in list(zip(vals, conds))[-2::-1]:
                val = simp_ite(z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else TRUE), v, val)
            return val
        kq = z3.Const("kq", I)
        done_lo = z3.And(kq >= i0, kq < ic) if step == 1 else z3.And(kq <= i0, kq > ic)

        def onlyi(x):
            d = self.deps(x)
            return d <= {str(ic)} and not self.newconsts(x)
        # guard facts that held in every finished iteration
        gs = []
        for cs in conds:
            gs.append([S(x) for x in cs])
        common = []
        if gs:
            if len(gs) == 1:
                common = [g for g in gs[0] if onlyi(g)]
            else:
                sets = [[g for g in x if onlyi(g)] for x in gs]
                ids = set.intersection(*[{g.get_id() for g in x} for x in sets]) if sets else set()
                common = [g for g in sets[0] if g.get_id() in ids]
                rest = [[g for g in x if g.get_id() not in ids] for x in sets]
                if all(rest) and all(len(x) + len([g for g in common]) >= 0 for x in rest):
                    d = z3.simplify(z3.Or(*[z3.And(*x) for x in rest]))
                    if not z3.is_true(d):
                        common.append(d)
        boundatoms = {a.get_id() for a in ()}
        for g in common:
            if str(ic) not in consts(g):
                continue
            body = z3.substitute(g, (ic, kq))
            if not interesting(body):
                continue
            out.append(("guard", z3.ForAll([kq], z3.Implies(done_lo, body))))
        # scalars
        for v in self.views:
            if v.kind not in ("fl", "int") or self.iscounter(v):
                continue
            if str(v.hc) in {str(a) for a, _ in cf}:
                continue
            v0 = em.get(str(v.hc))
            if v0 is None:
                continue
            vals = [sub.get(str(v.hc), v.hc) for sub in subs]
            if v.kind == "fl" and any(not kz(sub, v, self) for sub in subs):
                continue
            deltas = [z3.simplify(S(x) - v.hc) for x in vals]
            d = merged(deltas)
            d = S(d)
            if onlyi(d) and all(str(v.hc) not in consts(x) for x in deltas):
                if v.kind == "fl":
                    F = self.W.sumfn(lambda k: z3.substitute(d, (ic, k)))
                    tot = v0 + (F(i0, ic) if step == 1 else F(ic + 1, i0 + 1))
                else:
                    F = self.W.sumfn(lambda k: z3.substitute(z3.ToReal(d), (ic, k)))
                    tot = v0 + z3.ToInt(F(i0, ic) if step == 1 else F(ic + 1, i0 + 1))
                    out.append(("isum", z3.And(z3.ToReal(v.hc - v0) == (F(i0, ic) if step == 1 else F(ic + 1, i0 + 1)))))
                    continue
                out.append(("sum", v.hc == tot))
                self.cf.append((v.hc, tot))
                continue
            # geometric: v' = v * c
            if v.kind == "fl":
                xs = [S(y) for y in vals]
                q = mulfactor(xs[0], v.hc) if all(y.eq(xs[0]) for y in xs) else None
                if q is not None and not self.deps(q) and not self.newconsts(q):
                    n = z3.simplify((ic - i0) * step)
                    tot = v0 * self.W.uf("geo", R, I, R)(q, n)
                    out.append(("geo", v.hc == tot))
                    self.cf.append((v.hc, tot))
                    continue
            # running average style a*v+b not handled
            x = merged([S(y) for y in vals])
            if onlyi(x):
                prev = z3.substitute(x, (ic, ic - step))
                out.append(("lag", z3.Implies(ic != i0, v.hc == prev)))
                out.append(("lag0", v.hc == prev))
                if self.chk(self.st.pc, z3.substitute(prev, (ic, i0)) == v0, 500) == "unsat":
                    self.cf.append((v.hc, prev))
                else:
                    self.cf.append((v.hc, z3.If(ic == i0, v0, prev)))
                continue
            # select-update: each path keeps v or sets it to t(i)
            ts = []
            okp = True
            for y in vals:
                y = S(y)
                if y.eq(v.hc):
                    continue
                cases = ite_cases(y)
                for cse in cases:
                    if cse.eq(v.hc):
                        continue
                    if onlyi(cse):
                        ts.append(cse)
                    else:
                        okp = False
            if okp and ts:
                tk = [z3.substitute(t, (ic, kq)) for t in ts]
                for t in tk[:2]:
                    if str(t.sort()) == str(v.hc.sort()):
                        out.append(("max", z3.ForAll([kq], z3.Implies(done_lo, v.hc >= t))))
                        out.append(("min", z3.ForAll([kq], z3.Implies(done_lo, v.hc <= t))))
                out.append(("ge0", v.hc >= v0))
                out.append(("le0", v.hc <= v0))
                out.append(("attained", z3.Or(v.hc == v0, z3.Exists([kq], z3.And(done_lo, z3.Or(*[v.hc == t for t in tk]))))))
                if v.kind == "int":
                    # index variables: relation with co-updated scalars
                    if all(t.eq(ic) for t in ts):
                        rng = z3.And(v.hc >= i0, v.hc < ic) if step == 1 else z3.And(v.hc <= i0, v.hc > ic)
                        out.append(("idxrange", z3.Or(v.hc == v0, rng)))
                        for w in self.views:
                            if w.kind not in ("fl", "int") or w is v or self.iscounter(w):
                                continue
                            w0 = em.get(str(w.hc))
                            wt = []
                            for sub in subs:
                                y = S(sub.get(str(w.hc), w.hc))
                                for cse in ite_cases(y):
                                    if not cse.eq(w.hc) and onlyi(cse):
                                        wt.append(cse)
                            if wt and w0 is not None:
                                rel = w.hc == z3.substitute(wt[0], (ic, v.hc))
                                out.append(("argrel", rel))
                                out.append(("argrel0", z3.Or(z3.And(v.hc == v0, w.hc == w0), rel)))
        # arrays
        for v in self.views:
            if v.kind != "arr" or v.hc.sort().domain() != I:
                continue
            a0 = em.get(str(v.hc))
            if a0 is None:
                continue
            vals = [sub.get(str(v.hc), v.hc) for sub in subs]
            info_ = []
            good = True
            for y in vals:
                ch = store_chain(y, v.hc)
                if ch is None:
                    good = False
                    break
                info_.append(ch)
            if not good:
                continue
            idxs = {}
            for ch in info_:
                for ix, val in ch:
                    si = z3.simplify(S(ix))
                    idxs[si.sexpr()] = si
            if len(idxs) == 0:
                continue
            if len(idxs) > 1:
                continue
            ix = list(idxs.values())[0]
            if not onlyi(ix):
                continue
            off = z3.simplify(ix - ic) if step == 1 or True else None
            mir = None
            if self.deps(off):
                mir = z3.simplify(ix + ic)      # ix = mir - i
                if self.deps(mir):
                    continue
            cell_at = z3.Select(a0, ix)
            vs = []
            for ch in info_:
                vs.append(ch[-1][1] if ch else z3.Select(v.hc, ix))
            val = merged([S(x) for x in vs])
            # in-place reads at the same index see the entry value
            val = z3.substitute(val, (z3.Select(v.hc, ix), cell_at))
            val = subst_reads(val, v.hc, ix, a0)
            for w in self.views:   # kind and value arrays of one vector are written together
                if w is not v and w.kind == "arr" and w.hc.sort().domain() == I and em.get(str(w.hc)) is not None:
                    val = subst_reads(z3.substitute(val, (z3.Select(w.hc, ix), z3.Select(em[str(w.hc)], ix))), w.hc, ix, em[str(w.hc)])
            kd = kq - off if mir is None else mir - kq
            lo = z3.And(kd >= i0, kd < ic) if step == 1 else z3.And(kd <= i0, kd > ic)
            if mir is None:
                lo = z3.And(kq >= i0 + off, kq < ic + off) if step == 1 else z3.And(kq <= i0 + off, kq > ic + off)
            if not onlyi(val):
                # still useful: frame
                out.append(("arrframe", z3.ForAll([kq], z3.Implies(z3.Not(lo), z3.Select(v.hc, kq) == z3.Select(a0, kq)),
                                                  patterns=[z3.Select(v.hc, kq)])))
                continue
            g = z3.substitute(val, (ic, kd))
            body = simp_ite(lo, z3.simplify(g) if not hasq(g) else g, z3.Select(a0, kq))
            out.append(("arr", z3.ForAll([kq], z3.Select(v.hc, kq) == body, patterns=[z3.Select(v.hc, kq)])))
            self.arrforms[out[-1][1].get_id()] = (v.hc, kq, body, out[-1][1])
        # boolean flags: b' = b || c(i) etc.
        for v in self.views:
            if v.kind != "bool" or self.ex.hard_inv:
                continue
            v0 = em.get(str(v.hc))
            if v0 is None:
                continue
            x = merged([S(sub.get(str(v.hc), v.hc)) for sub in subs])
            for val_, nm in ((TRUE, "T"), (FALSE, "F")):
                fx = z3.simplify(z3.substitute(x, (v.hc, val_)))
                ot = z3.BoolVal(not z3.is_true(val_))
                # if currently `val_`, it stays val_ iff P(i)
                keep = fx if z3.is_true(val_) else z3.simplify(z3.Not(fx))
                if onlyi(keep) and not z3.is_true(keep):
                    kp = z3.substitute(keep, (ic, kq))
                    allk = z3.ForAll([kq], z3.Implies(done_lo, kp))
                    cur = v.hc if z3.is_true(val_) else z3.Not(v.hc)
                    e0 = v0 if z3.is_true(val_) else z3.Not(v0)
                    out.append(("flag" + nm, z3.Implies(cur, allk)))
                    out.append(("flagr" + nm, z3.Implies(z3.And(e0, allk), cur)))
                    out.append(("flage" + nm, z3.Implies(e0, z3.Or(cur, z3.Exists([kq], z3.And(done_lo, z3.Not(kp)))))))
        return out


def mulfactor(x, h):
    """c with x == h * c, h occurring once as a factor"""
    x = z3.simplify(x)
    if not z3.is_mul(x):
        return None
    cs = x.children()
    hs = [c for c in cs if c.eq(h)]
    rest = [c for c in cs if not c.eq(h)]
    if len(hs) != 1 or any(str(h) in consts(c) for c in rest):
        return None
    return z3.Product(*rest) if len(rest) > 1 else rest[0]


_io = {}


def intonly(g):
    """no real-valued or array subterm"""
    i = g.get_id()
    r = _io.get(i)
    if r is None:
        ok = g.sort() in (I, z3.BoolSort()) and z3.is_app(g) and all(intonly(x) for x in g.children())
        r = _io[i] = (g, ok)
    return r[1]


class LC:
    """what a supplied candidate generator sees"""

    def __init__(self, loop, r):
        self.loop = loop
        self.ends, self.exits, self.others = r
        self.ex = loop.ex
        self.W = loop.W
        em = loop.entry_map()
        self.ints = [(v.hc, em.get(str(v.hc))) for v in loop.views if v.kind == "int" and em.get(str(v.hc)) is not None]
        self.fls = [(v.hc, em.get(str(v.hc))) for v in loop.views if v.kind == "fl" and em.get(str(v.hc)) is not None]
        self.bools = [(v.hc, em.get(str(v.hc))) for v in loop.views if v.kind == "bool"]
        self.arrs = [(v.hc, em.get(str(v.hc))) for v in loop.views if v.kind == "arr" and em.get(str(v.hc)) is not None]
        self.head = loop.head
        self.depth = loop.depth
        self.entry = loop.st
        c = loop.counter()
        self.i = c[0].hc if c else None
        self.step = c[1] if c else None
        self.i0 = c[2] if c else None

    def vecs(self):
        """modified vectors: list of (head VecV, entry VecV)"""
        out = []

        def walk(hv, cv, path):
            if isinstance(hv, VecV):
                out.append((hv, cv))
            elif isinstance(hv, StructV):
                for f in sorted(set(hv.over) | set(hv.memo) | (set(hv.src.memo) if isinstance(hv.src, FreshSrc) else set())):
                    a = hv.get(f)
                    if a is None:
                        continue
                    try:
                        walk(a, cv.get(f), path + (f,))
                    except Unsupported:
                        pass
        for cell in {c for c, _ in self.loop.mods}:
            walk(self.loop.head.mem[cell], self.loop.st.mem[cell], ())
        return out

    def maps(self):
        out = []
        for cell in {c for c, _ in self.loop.mods}:
            h, e = self.loop.head.mem[cell], self.loop.st.mem[cell]
            if isinstance(h, MapV):
                out.append((h, e))
        return out


def kz(sub, v, loop):
    return True


def isconst(a):
    return z3.is_app(a) and a.num_args() == 0 and a.decl().kind() == z3.Z3_OP_UNINTERPRETED


def constkind(s):
    ds = []
    while s.kind() == z3.Z3_ARRAY_SORT:
        ds.append(s.domain()); s = s.range()
    z = iv(0)
    for q in reversed(ds):
        z = z3.K(q, z)
    return z


def kindsort(s):
    ds = []
    while s.kind() == z3.Z3_ARRAY_SORT:
        ds.append(s.domain()); s = s.range()
    t = I
    for q in reversed(ds):
        t = z3.ArraySort(q, t)
    return t


def kindmismatch(a, b):
    """b carries explicit float kinds where a has none"""
    if a is b:
        return False
    if isinstance(a, Fl) and isinstance(b, Fl):
        return a.k is None and b.k is not None
    if isinstance(a, VecV) and isinstance(b, VecV):
        return kindmismatch(a.el, b.el)
    if isinstance(a, StructV) and isinstance(b, StructV):
        for f in set(b.over) | set(b.memo):
            try:
                if b.get(f) is not None and kindmismatch(a.get(f), b.get(f)):
                    return True
            except Unsupported:
                pass
    return False


def addkinds(v, b):
    if isinstance(v, Fl) and isinstance(b, Fl):
        if v.k is None and b.k is not None:
            return Fl(v.r, constkind(b.k.sort()) if b.k.sort() != I else iv(0))
        return v
    if isinstance(v, VecV) and isinstance(b, VecV):
        return VecV(v.elty, v.n, addkinds(v.el, b.el))
    if isinstance(v, StructV) and isinstance(b, StructV):
        r = v
        for f in set(b.over) | set(b.memo):
            try:
                x = v.get(f)
                if x is not None and kindmismatch(x, b.get(f)):
                    r = r.set(f, addkinds(x, b.get(f)))
            except Unsupported:
                pass
        return r
    return v


def mentions(e, cs):
    c = consts(e)
    return any(str(x) in c for x in cs)


def atoms_of(c):
    out = []
    stack = [c]
    while stack:
        x = stack.pop()
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            stack.extend(x.children())
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and x.arg(0).sort() == I:
            a, b = x.arg(0), x.arg(1)
            # solve for a single counter on the left when z3 moved terms around
            out.append((a, b))
            out.extend(isolate(a, b))
        elif k == z3.Z3_OP_DISTINCT and x.arg(0).sort() == I:
            out.append((x.arg(0), x.arg(1)))
    return out


def isolate(a, b):
    """a ? b with a = c + rest  ->  c ? b - rest (for +-1 coefficients)"""
    out = []
    for l, r in ((a, b), (b, a)):
        if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_ADD:
            ch = l.children()
            for i, t in enumerate(ch):
                rest = [c for j, c in enumerate(ch) if j != i]
                others = z3.simplify(r - z3.Sum(*rest)) if rest else r
                if isconst(t):
                    out.append((t, others))
                elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and isnum(t.arg(0)) and t.arg(0).as_long() == -1 \
                        and isconst(t.arg(1)):
                    out.append((t.arg(1), z3.simplify(-others)))
        elif z3.is_app(l) and l.decl().kind() == z3.Z3_OP_MUL and isnum(l.arg(0)) and l.arg(0).as_long() == -1:
            out.append((l.arg(1), z3.simplify(-r)))
    return out


def interesting(g, k="kq"):
    """skip pure bound facts about the counter (no array or function applied to it)"""
    return appl_to(g, k)


def appl_to(g, k):
    stack = [g]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        if z3.is_app(x):
            kd = x.decl().kind()
            if kd == z3.Z3_OP_SELECT or (kd == z3.Z3_OP_UNINTERPRETED and x.num_args()):
                if k in consts(x):
                    return True
            stack.extend(x.children())
    return False


def ite_cases(x):
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        return ite_cases(x.arg(1)) + ite_cases(x.arg(2))
    return [x]


def store_chain(y, base):
    """list of (idx,val) or None"""
    out = []
    while not y.eq(base):
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_STORE:
            out.append((y.arg(1), y.arg(2)))
            y = y.arg(0)
        else:
            return None
    out.reverse()
    return out


def subst_reads(val, arr_, ix, a0):
    """replace select(arr_, e) with e syntactically equal to ix by select(a0, ix)"""
    pairs = []
    seen = set()
    stack = [val]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_SELECT and x.arg(0).eq(arr_):
                d = z3.simplify(x.arg(1) - ix)
                if isnum(d) and d.as_long() == 0:
                    pairs.append((x, z3.Select(a0, ix)))
            stack.extend(x.children())
    return z3.substitute(val, *pairs) if pairs else val


def subst_val(v, pairs):
    if isinstance(v, Fl):
        return Fl(z3.substitute(v.r, *pairs), None if v.k is None else z3.substitute(v.k, *pairs))
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs)
    if isinstance(v, IterV):
        return IterV(v.lv, z3.substitute(v.idx, *pairs), v.rev, v.elty)
    if isinstance(v, VecV):
        return VecV(v.elty, z3.substitute(v.n, *pairs), subst_val(v.el, pairs))
    if isinstance(v, StructV):
        return StructV(v.ty, SubstSrc(v, pairs))
    if isinstance(v, TupleV):
        return TupleV([x if isinstance(x, LV) else subst_val(x, pairs) for x in v.els])
    if isinstance(v, SPtrV):
        return SPtrV(v.ty, z3.substitute(v.null, *pairs), None, lambda: subst_val(v.val, pairs))
    if isinstance(v, OpaqueV):
        return OpaqueV(z3.substitute(v.e, *pairs))
    if isinstance(v, MapV) and v.enum is None:
        return MapV(v.kty, v.vty, z3.substitute(v.dom, *pairs), None if v.val is None else subst_val(v.val, pairs),
                    z3.substitute(v.n, *pairs))
    return v


class SubstSrc:
    def __init__(self, v, pairs):
        self.v = v; self.pairs = pairs

    def field(self, f):
        return subst_val(self.v.get(f), self.pairs)
