"""Function contracts: verification of a body against its contract, and use of a
contract at a call."""
import z3, time
from .values import *
from .ir import Unsupported
from .engine import Ex, Ob, TRUE, FALSE, St
from .theory import hasq
from . import fl


def _intty():
    from .engine import INTTY
    return INTTY


class Contract:
    """q: qualified name; sel: predicate on the function record to choose an overload.
    pre/post/throws/loops: callables on the context.
      pre(c)    -> [(name, Bool)]
      post(c)   -> [(name, Bool)]            (normal return)
      throws(c) -> {ErrorCode: Bool condition in the pre state}; a normal return implies no listed
                   condition held, a throw of a code implies its condition held.
      maythrow  : codes whose condition is only necessary (not sufficient)
      modifies  : 'this', ('this',field), int argument positions"""

    def __init__(self, q, post=None, pre=None, throws=None, sel=None, modifies=(), loops=None, maythrow=(),
                 usable=False, nonfinite=(), opts=None, lemmas=None, prelemmas=None, name=None, anythrow=False, setup=None, ignore=(),
                 force_kind=False, safety=True, thisclass=None, budget=1, warns=(), trusted=None):
        self.trusted = trusted  # reason: the contract is assumed at calls, not verified in this property
        self.warns = warns     # warning codes the postcondition speaks about: c.warned(code)
        self.budget = budget
        self.q = q; self._post = post; self._pre = pre; self._throws = throws; self.sel = sel
        self.modifies = modifies; self.loops = loops; self.maythrow = set(maythrow); self.usable = usable
        self.nonfinite = nonfinite; self.opts = opts or {}; self.lemmas = lemmas; self.prelemmas = prelemmas
        self.short = name or q.replace("NSEpic::", "")
        self.fn = None; self.anythrow = anythrow; self.setup = setup; self.ignore = ignore
        self.force_kind = force_kind; self.safety = safety; self.thisclass = thisclass   # dynamic type of *this

    def resolve(self, prog):
        c = [f for f in prog.find(self.q) if f.get("body") is not None or self.usable]
        if self.sel:
            c = [f for f in c if self.sel(f)]
        if not c:
            # template instantiations / spelling with arguments
            from .engine import nq
            for k, ks in prog.byname.items():
                if nq(k) == nq(self.q):
                    for x in ks:
                        f = prog.fn(x)
                        if (self.sel is None or self.sel(f)) and f.get("body") is not None and f not in c:
                            c.append(f)
        if not c:
            raise Unsupported("function %s not found in the extracted program" % self.q)
        if len(c) > 1:
            keys = {f["key"] for f in c}
            if len(keys) > 1:
                raise Unsupported("ambiguous function %s: %s" % (self.q, [[p["t"].p for p in f["params"]] for f in c]))
        self.fn = c[0]
        return self.fn

    def pre(self, c):
        return (self._pre(c) if self._pre else []) or []

    def post(self, c):
        return (self._post(c) if self._post else []) or []

    def throws(self, c):
        return (self._throws(c) if self._throws else {}) or {}


class BaseCtx:
    @property
    def W(self):
        return self.ex.W

    def F(self, f):
        return z3.RealVal(f)

    def f(self, *names):
        v = self.this
        for n in names:
            v = v.get(n) if isinstance(v, StructV) else v.val.get(n)
        return v

    def f2(self, *names):
        v = self.this2
        for n in names:
            v = v.get(n) if isinstance(v, StructV) else v.val.get(n)
        return v

    def sum(self, term):
        return self.W.sumfn(term)

    def it(self, i):
        """(container before the call, position) of an iterator argument"""
        v = self.a(i)
        return self.ex.rd(self.st_pre(), v.lv), v.idx


class VCtx(BaseCtx):
    """context for verifying a body"""

    def __init__(self, ex, con, st0, thislv, argl):
        self.ex = ex; self.con = con; self.st0 = st0; self.thislv = thislv; self.argl = argl
        self.st = None; self.ret = None
        self.memo = {}

    def st_pre(self):
        return self.st0

    def warned(self, code):
        return self.st.mem[self.ex.warncells[code].cell] == 1

    def a(self, i):
        x = self.argl[i]
        v = self.st0.mem[x.cell]
        return v

    def a2(self, i):
        return self.st.mem[self.argl[i].cell]

    @property
    def this(self):
        return self.st0.mem[self.thislv.cell]

    @property
    def this2(self):
        return self.st.mem[self.thislv.cell]


class CallCtx(BaseCtx):
    def __init__(self, ex, con, st, this, args):
        self.ex = ex; self.con = con; self.args = args
        self.pre_args = []
        fn = con.fn
        self.lvs = []
        for p, a in zip(fn["params"], args):
            self.pre_args.append(ex.ld(st, a))
            self.lvs.append(a if isinstance(a, LV) else None)
        self.thislv = this
        self._this = ex.rd(st, this) if this is not None else None
        self._post_args = list(self.pre_args)
        self._this2 = self._this
        self.ret = None
        self._pre_st = st.copy() if any(isinstance(x, IterV) for x in self.pre_args) else st

    def st_pre(self):
        return self._pre_st

    def a(self, i):
        return self.pre_args[i]

    def a2(self, i):
        return self._post_args[i]

    @property
    def this(self):
        return self._this

    @property
    def this2(self):
        return self._this2

    def havoc(self, st):
        ex, con = self.ex, self.con
        fn = con.fn
        for m in con.modifies:
            if m == "this":
                v = fresh(ex.W, con.short + ".this", fn["cls"])
                ex.wr(st, self.thislv, v)
            elif isinstance(m, tuple) and m[0] == "this":
                ft = ex.W.fieldty(fn["cls"], m[1])
                ex.wr(st, self.thislv.f(m[1]), fresh(ex.W, con.short + "." + m[1], ft))
            elif isinstance(m, int):
                t = fn["params"][m]["t"].deref()
                v = fresh(ex.W, "%s.arg%d" % (con.short, m), t)
                lv = self.lvs[m]
                if lv is None:
                    raise Unsupported("modified argument is not an lvalue")
                ex.wr(st, lv, v)
                self._post_args[m] = v
        if self.thislv is not None:
            self._this2 = ex.rd(st, self.thislv)
        rt = fn["ret"]
        if rt is not None and rt.k != "void":
            self.ret = fresh(ex.W, con.short + ".ret", rt.deref())


def verify(ex, con, budget=120):
    """run the body of con.fn symbolically; obligations are appended to ex.obs.
    returns a summary dict"""
    W = ex.W
    fn = con.fn
    t0 = time.time()
    ex.func = con.short
    ex.deadline = t0 + budget
    old_nf, W.nonfinite = W.nonfinite, set(W.nonfinite) | set(con.nonfinite)
    oldk, W.force_kind = W.force_kind, con.force_kind
    old_ign, ex.ignore_fns = ex.ignore_fns, set(ex.ignore_fns) | set(con.ignore)
    saved = {}
    for k, v in con.opts.items():
        tgt = W if hasattr(W, k) else ex
        saved[k] = (tgt, getattr(tgt, k))
        setattr(tgt, k, v)
    ex.safety = con.safety
    W.side_sums = True
    n_ob0 = len(ex.obs)
    try:
        st = ex.newst()
        thislv = None
        isctor = fn.get("cls") is not None and fn["q"].split("::")[-1].split("<")[0] == fn["cls"].n.split("::")[-1].split("<")[0]
        if fn.get("cls") is not None and not fn.get("static"):
            cls = fn["cls"] if con.thisclass is None else ex.prog.typ(con.thisclass)
            if cls is None:
                raise Unsupported("class %s not found" % con.thisclass)
            thislv = ex.cell(st, cls, StructV(cls, FreshSrc(W, "this", cls, ())))
        argl = []
        for i, p in enumerate(fn["params"]):
            t = p["t"]
            argl.append(ex.cell(st, t.deref(), fresh(W, "%s" % (p["n"] or "arg%d" % i), t.deref())))
        ex.warncells = {w: ex.cell(st, _intty(), iv(0)) for w in con.warns}
        if con.setup:
            con.setup(ex, st, thislv, argl)
        st0 = st.copy()
        ctx = VCtx(ex, con, st0, thislv, argl)
        ctx.st = st0
        for name, p in con.pre(ctx):
            st.add(p)
        if con.prelemmas:
            for name, g, *conc in con.prelemmas(ctx):
                # a third component is what an induction whose step is g establishes
                ex.obs.append(Ob("lemma: " + name, list(st.pc), g, ex.line, "lemma", con.short))
                st.add(conc[0] if conc else g)
        st0.pc = list(st.pc)
        thr = con.throws(ctx)
        ex.loopctx = (lambda lc, rnd: con.loops(ctx, lc)) if con.loops else None
        ex.sinks = [[]]
        ex.depth = 0
        ex.inline_stack = []
        mark = ex.cellctr
        ex.wlog = []
        args = []
        for p, a in zip(fn["params"], argl):
            args.append(a)
        outs = ex.run_fn(st, fn, args, thislv)
        log = ex.wlog
        ex.wlog = None
        ex.loopctx = None
        nret = nthr = 0
        for s, v in outs:
            ex.tick()
            ctx.st = s
            ctx.ret = ex.ld(s, v) if v is not None else None
            nret += 1
            for code, c in thr.items():
                if code in con.maythrow:
                    continue
                if not ex.qf(s, z3.Not(c)) if not hasq(c) else True:
                    ex.obs.append(Ob("no normal return when %s is due" % code, list(s.pc), z3.Not(c), ex.line, "throws", con.short))
            s2 = s
            pcs = list(s.pc)
            if con.lemmas:
                for name, g in con.lemmas(ctx):
                    ex.obs.append(Ob("lemma: " + name, list(pcs), g, ex.line, "lemma", con.short))
                    pcs.append(g)
            for name, g in con.post(ctx):
                if z3.is_true(z3.simplify(g)) if not hasq(g) else False:
                    o = Ob("ensures: " + name, [], g, ex.line, "post", con.short)
                    o.status = "proved"; o.backend = "simplifier"
                    ex.obs.append(o)
                    continue
                ex.obs.append(Ob("ensures: " + name, list(pcs), g, ex.line, "post", con.short))
        for s, code in ex.sinks[0]:
            nthr += 1
            if con.anythrow:
                continue
            c = thr.get(code)
            if c is None:
                if ex.feasible(s):
                    ex.obs.append(Ob("never throws %s" % code, list(s.pc), FALSE, ex.line, "throws", con.short))
            else:
                ex.obs.append(Ob("throws %s only when due" % code, list(s.pc), c, ex.line, "throws", con.short))
        # frame
        ncell = {}
        for i, a in enumerate(argl):
            ncell[a.cell] = i
        bad = []
        for cell, path in log:
            if cell in ncell:
                i = ncell[cell]
                if fn["params"][i]["t"].k == "ref" and i not in con.modifies:
                    bad.append("argument %d" % i)
            elif thislv is not None and cell == thislv.cell and not isctor:
                fld = path[0][1] if path and path[0][0] == "f" else None
                if "this" not in con.modifies and ("this", fld) not in con.modifies:
                    bad.append("this.%s" % fld)
        o = Ob("frame: nothing else is modified", [], TRUE if not bad else FALSE, 0, "frame", con.short)
        if bad:
            o.note = "modified: " + ", ".join(sorted(set(bad)))
        ex.obs.append(o)
        # vacuity: at least one outcome must be reachable
        for s, v in outs[:6]:
            o = Ob("cover: return reachable", list(s.pc), FALSE, 0, "cover", con.short)
            ex.obs.append(o)
        return {"function": con.q, "returns": nret, "throws": nthr, "obligations": len(ex.obs) - n_ob0,
                "time": round(time.time() - t0, 2)}
    finally:
        for o in ex.obs[n_ob0:]:
            o.wopts = {k: v for k, v in con.opts.items() if hasattr(W, k)}
        W.side_sums = False
        W.nonfinite = old_nf
        W.force_kind = oldk
        ex.ignore_fns = old_ign
        for k, (tgt, v) in saved.items():
            setattr(tgt, k, v)
        ex.warncells = {}
        ex.safety = True
        ex.deadline = None
        ex.wlog = None
        ex.quiet = 0
        if hasattr(ex, "discovering"):
            ex.discovering = False
