"""Forward symbolic execution of the extracted functions, producing proof
obligations.  Loops are cut at inferred and supplied invariants; callees are used
through their contract where one is registered, otherwise their extracted body is
inlined."""
import z3, re, itertools, os, time
from .values import *
from .ir import Unsupported, Ty
from .theory import World, consts, hasq, info
from . import fl
from .fl import *

TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def nq(q):
    """qualified name without template arguments"""
    if "<" not in q:
        return q
    tail = ""
    m = re.search(r"(?:^|::)(operator\s*(?:\(\)|\[\]|->\*?|<<=?|>>=?|<=>|<=?|>=?|[^\w\s<]+)?.*)$", q)
    # find 'operator' outside angle brackets
    depth = 0
    i = 0
    out = []
    n = len(q)
    while i < n:
        if depth == 0 and q.startswith("operator", i) and (i == 0 or q[i - 1] == ":"):
            out.append(q[i:])
            break
        c = q[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Ob:
    __slots__ = ("name", "hyps", "goal", "loc", "kind", "func", "status", "backend", "time", "model", "note", "wopts")

    def __init__(self, name, hyps, goal, loc, kind, func):
        self.name = name; self.hyps = hyps; self.goal = goal; self.loc = loc; self.kind = kind; self.func = func
        self.status = None; self.backend = None; self.time = 0; self.model = None; self.note = ""; self.wopts = None


class St:
    __slots__ = ("mem", "pc", "env", "this")

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.env = list(self.env)
        s.env[-1] = dict(self.env[-1]) if s.env else {}
        s.this = list(self.this)
        return s

    def add(self, c):
        c = z3.simplify(c) if not hasq(c) else c
        if z3.is_true(c):
            return self
        if z3.is_and(c):
            for x in c.children():
                self.add(x) if z3.is_not(x) else self.pc.append(x)
            return self
        if z3.is_not(c) and hasq(c):
            a = c.arg(0)
            if z3.is_or(a):
                for x in a.children():
                    self.add(z3.Not(x))
                return self
            if z3.is_not(a):
                return self.add(a.arg(0))
            if z3.is_quantifier(a) and a.is_exists():
                vs = [z3.Const("nx!%d_%s" % (a.get_id(), a.var_name(i)), a.var_sort(i)) for i in range(a.num_vars())]
                b = z3.substitute_vars(a.body(), *reversed(vs))
                conj = list(b.children()) if z3.is_and(b) else [b]
                concl = z3.Not(conj[-1])
                self.pc.append(z3.ForAll(vs, z3.Implies(z3.And(*conj[:-1]), concl) if len(conj) > 1 else concl))
                return self
        self.pc.append(c)
        return self


class Dead(Exception):
    pass


IGN_CLS = ("NSEpic::CLog", "NSEpic::CFlagWarning", "Formatter", "NSEpic::CSingleton", "boost::timer", "boost::chrono")


FUNCTORS = {"std::" + n for n in ("plus", "minus", "multiplies", "divides", "less", "greater")}


def whole(x):
    """the integer term behind a real term that is one by construction (round, floor, ceil), or None"""
    if z3.is_to_real(x):
        return x.arg(0)
    if z3.is_app_of(x, z3.Z3_OP_UMINUS):
        r = whole(x.arg(0))
        return None if r is None else -r
    if z3.is_app_of(x, z3.Z3_OP_MUL) and x.num_args() == 2 and z3.is_rational_value(x.arg(0)) and x.arg(0).denominator_as_long() == 1:
        r = whole(x.arg(1))
        return None if r is None else x.arg(0).numerator_as_long() * r
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        a, b = whole(x.arg(1)), whole(x.arg(2))
        return None if a is None or b is None else z3.If(x.arg(0), a, b)
    if z3.is_rational_value(x) and x.denominator_as_long() == 1:
        return z3.IntVal(x.numerator_as_long())
    if z3.is_app_of(x, z3.Z3_OP_ADD) or z3.is_app_of(x, z3.Z3_OP_SUB):
        ps = [whole(y) for y in x.children()]
        if any(p is None for p in ps):
            return None
        r = ps[0]
        for p in ps[1:]:
            r = r + p if z3.is_app_of(x, z3.Z3_OP_ADD) else r - p
        return r
    return None


class LazyChoice(Unsupported):
    pass


class Ex:
    def __init__(self, W, prog, contracts=None):
        self.W = W; self.prog = prog
        self.contracts = contracts or {}
        self.inlined = set()
        self.cellctr = 0
        self.cty = {}
        self.obs = []
        self.quiet = 0
        self.wlog = None
        self.sinks = [[]]
        self.depth = 0
        self.func = "?"
        self.funcs_used = set()
        self.assumptions = set()
        self.loopctx = None      # user supplied candidate generator
        self.line = 0
        self.ignore = set(IGN_CLS)
        self.ignore_fns = set()
        self.globcache = {}
        self.loopdepth = 0
        self.trace = os.environ.get("VC_TRACE")
        self.deadline = None
        self.maxpaths = 48
        self.safety = True
        self.uninit = True
        self.loop_stats = []
        self.novec_merge = False
        self.nounroll = False
        self.hard_inv = False     # supplied invariants get a second attempt with other solver settings
        self.warncells = {}       # ghost: warning code -> cell (0 not raised, 1 raised) of the contract being verified
        self.opaque_mul = False   # products and quotients of variable terms are uninterpreted (sound abstraction)
        self.unroll_max = 40
        self.inline_stack = []
        self.hints = {}

    # ------------------------------------------------------------ state
    def newst(self):
        s = St(); s.mem = {}; s.pc = []; s.env = [{}]; s.this = [None]
        return s

    def cell(self, st, ty, val):
        self.cellctr += 1
        c = self.cellctr
        self.cty[c] = ty
        st.mem[c] = val
        return LV(c, (), ty)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("symbolic execution time limit")

    def rd(self, st, lv):
        v = st.mem.get(lv.cell)
        if v is None:
            if lv.cell in st.mem:
                raise Unsupported("read of uninitialised aggregate %s" % (self.cty.get(lv.cell),))
            raise Unsupported("dangling reference")
        for p in lv.path:
            v = self.step(v, p)
        return v

    def step(self, v, p):
        if p[0] == "f":
            if isinstance(v, TupleV):
                return v.els[int(p[1])]
            if not isinstance(v, StructV):
                raise Unsupported("field %s of %r" % (p[1], type(v)))
            return v.get(p[1])
        if p[0] == "i":
            return sel(v.el, p[1])
        if p[0] == "k":
            return sel(v.val, p[1])
        if p[0] == "d":
            return v.val
        raise Unsupported("path")

    def wr(self, st, lv, val):
        if isinstance(val, LV):
            raise Unsupported("storing lvalue")
        if self.wlog is not None:
            self.wlog.append((lv.cell, lv.path))
        if not lv.path:
            st.mem[lv.cell] = val
            return
        v = st.mem.get(lv.cell)
        st.mem[lv.cell] = self._wr(v, lv.path, val)

    def _wr(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if p[0] == "f":
            if isinstance(v, TupleV):
                e = list(v.els); e[int(p[1])] = self._wr(e[int(p[1])], path[1:], val)
                return TupleV(e)
            if not isinstance(v, StructV):
                raise Unsupported("write field of %r" % type(v))
            return v.set(p[1], self._wr(v.get(p[1]), path[1:], val) if len(path) > 1 else val)
        if p[0] == "i":
            x = self._wr(sel(v.el, p[1]), path[1:], val) if len(path) > 1 else val
            return VecV(v.elty, v.n, sto(v.el, p[1], self.fit(x, v.elty)))
        if p[0] == "k":
            x = self._wr(sel(v.val, p[1]), path[1:], val) if len(path) > 1 else val
            return MapV(v.kty, v.vty, v.dom, sto(v.val, p[1], x), v.n, v.enum)
        if p[0] == "d":
            w = SPtrV(v.ty, v.null, self._wr(v.val, path[1:], val) if len(path) > 1 else val)
            return w
        raise Unsupported("write path")

    def fit(self, x, ty):
        """adapt a value to be stored in a lifted container"""
        if isinstance(x, PtrV):
            raise Unsupported("pointer stored in container")
        return x

    def ld(self, st, v):
        if isinstance(v, LV):
            v = self.rd(st, v)
        return v

    def lvof(self, st, v, ty):
        if isinstance(v, LV):
            return v
        return self.cell(st, ty, v)

    # ------------------------------------------------------------ obligations
    def ob(self, st, name, goal, kind="safety", assume=True):
        g = goal
        if not hasq(g):
            g = z3.simplify(g)
        if z3.is_true(g):
            return
        if not self.quiet and (kind != "safety" or self.safety):
            self.obs.append(Ob(name, list(st.pc), g, self.line, kind, self.func))
        if assume:
            st.add(g)

    def qf(self, st, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.W.qf(st, c)

    def feasible(self, st):
        if not st.pc:
            return True
        return not self.W.qf(st, FALSE)

    def branch(self, st, c):
        """-> list of (st, bool)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        self.tick()
        if self.W.qf(st, c):
            return [(st, True)]
        nc = z3.simplify(z3.Not(c))
        if self.W.qf(st, nc):
            return [(st, False)]
        a = st.copy(); a.add(c)
        st.add(nc)
        return [(a, True), (st, False)]

    def throw(self, st, code):
        self.sinks[-1].append((st, code))

    # ------------------------------------------------------------ expressions
    def evs(self, st, es):
        """evaluate a list of expressions left to right"""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                for s2, v in self.ev(s, e):
                    nxt.append((s2, vs + [v]))
            outs = nxt
        return outs

    def rvs(self, st, es):
        return [(s, [self.ld(s, v) for v in vs]) for s, vs in self.evs(st, es)]

    def rv(self, st, e):
        return [(s, self.ld(s, v)) for s, v in self.ev(st, e)]

    def cond(self, st, e):
        return [(s, self.tobool(v)) for s, v in self.rv(st, e)]

    def tobool(self, v):
        if isinstance(v, Fl):
            return tobool(v)
        if isinstance(v, (SPtrV, PtrV)):
            return z3.Not(v.null)
        if isinstance(v, ClosV):
            return TRUE
        if isinstance(v, z3.ExprRef):
            if v.sort() == B:
                return v
            if v.sort() == I:
                return z3.simplify(v != 0)
        raise Unsupported("condition value %r" % type(v))

    def ev(self, st, e):
        self.tick()
        if e.get("l"):
            self.line = e["l"]
        m = getattr(self, "e_" + e["e"], None)
        if m is None:
            raise Unsupported("expression kind " + e["e"])
        return m(st, e)

    def e_int(self, st, e):
        return [(st, iv(int(e["v"])))]

    def e_float(self, st, e):
        return [(st, flc(e["v"]))]

    def e_bool(self, st, e):
        return [(st, z3.BoolVal(bool(e["v"])))]

    def e_str(self, st, e):
        return [(st, self.W.strlit(e["v"]))]

    def e_nullptr(self, st, e):
        return [(st, PtrV(TRUE, None))]

    def e_this(self, st, e):
        t = st.this[-1]
        if t is None:
            raise Unsupported("this outside method")
        return [(st, PtrV(FALSE, t))]

    def e_unsupported(self, st, e):
        raise Unsupported("expr: %s" % e.get("what", e.get("n", "?")))

    def e_ref(self, st, e):
        k = e["k"]
        if k in ("local", "param", "binding"):
            b = st.env[-1].get(e["id"])
            if b is None:
                raise Unsupported("unbound variable " + e["n"])
            return [(st, b)]
        if k == "global":
            return [(st, self.globval(st, e))]
        if k == "enum":
            return [(st, iv(int(e["v"])))]
        raise Unsupported("ref kind " + k)

    def globval(self, st, e):
        n = e.get("id") or e["n"]
        name = e.get("q") or e.get("key") or e["n"]
        if name in self.globcache:
            return self.globcache[name]
        g = self.prog.globals.get(name)
        if g is None:
            for key, gg in self.prog.globals.items():
                if key.endswith("::" + e["n"]) or gg.get("n") == e["n"] or key == e["n"]:
                    g = gg
                    break
        ty = e["t"]
        v = None
        if g is not None and g.get("init") is not None:
            if not (g.get("const", True)):
                raise Unsupported("mutable global " + name)
            s = self.newst()
            self.quiet += 1
            try:
                r = self.rv(s, g["init"])
            finally:
                self.quiet -= 1
            if len(r) == 1:
                v = r[0][1]
                if r[0][0].mem:
                    # keep temporaries alive: only values matter
                    pass
        if v is None:
            if g is not None and g.get("const") is False:
                raise Unsupported("mutable global " + name)
            v = fresh(self.W, "g:" + name, ty)
            self.assumptions.add("global constant %s treated as an arbitrary value" % name)
        self.globcache[name] = v
        return v

    def e_fref(self, st, e):
        return [(st, FnRef(e["f"]))]

    def deref(self, st, v, what="pointer"):
        """pointer value (rvalue) or LV to pointer -> LV of pointee"""
        lv = None
        if isinstance(v, LV):
            lv = v
            v = self.rd(st, lv)
        if isinstance(v, PtrV):
            self.ob(st, "non-null " + what, z3.Not(v.null))
            if v.lv is None:
                raise Dead()
            return v.lv
        if isinstance(v, SPtrV):
            self.ob(st, "non-null " + what, z3.Not(v.null))
            if lv is None:
                lv = self.cell(st, v.ty, v)
            return lv.d()
        if isinstance(v, IterV):
            return self.iterlv(st, v)
        if isinstance(v, MapIterV):
            from .stdlib import mapiterlv
            r = mapiterlv(self, st, v)
            return r if isinstance(r, LV) else self.cell(st, None, r)
        raise Unsupported("dereference of %r" % type(v))

    def iterlv(self, st, it, off=None):
        idx = it.idx if off is None else z3.simplify(it.idx + off)
        if it.rev:
            idx = z3.simplify(idx - 1)
        vec = self.rd(st, it.lv)
        self.ob(st, "iterator in range", z3.And(idx >= 0, idx < vec.n))
        return it.lv.i(idx, it.elty)

    def e_member(self, st, e):
        outs = []
        for s, b in self.ev(st, e["b"]):
            if e.get("arrow"):
                try:
                    b = self.deref(s, b)
                except Dead:
                    continue
            if isinstance(b, LV) and isinstance(st_peek(s, b), TupleV):
                b = st_peek(s, b)
            if isinstance(b, TupleV) and e["n"] in ("first", "second"):
                outs.append((s, b.els[0 if e["n"] == "first" else 1]))
                continue
            if isinstance(b, LV):
                r = b.f(e["n"], e["t"])
                # reference fields
                try:
                    v = self.rd(s, r) if self.is_ref_field(e) else None
                except Unsupported:
                    v = None
                if isinstance(v, PtrV) and self.is_ref_field(e):
                    outs.append((s, v.lv))
                else:
                    outs.append((s, r))
            elif isinstance(b, (StructV, TupleV)):
                outs.append((s, self.step(b, ("f", e["n"]))))
            else:
                raise Unsupported("member %s of %r" % (e["n"], type(b)))
        return outs

    def is_ref_field(self, e):
        bt = e["b"]["t"]
        while bt is not None and bt.k in ("ref", "ptr"):
            bt = bt.t
        if bt is None or bt.k != "rec":
            return False
        fs = self.prog.fields(bt)
        return bool(fs and e["n"] in fs and fs[e["n"]][0].k == "ref")

    # ---- casts and conversions
    def toint(self, st, x, ty):
        """integer conversion (C++ implicit or explicit)"""
        if ty.k == "bool":
            return z3.simplify(x != 0) if x.sort() == I else x
        if x.sort() == B:
            return z3.If(x, iv(1), iv(0))
        if ty.k == "enum":
            return x
        return self.wrap(st, x, ty)

    def wrap(self, st, x, ty):
        if isnum(x):
            n = x.as_long() % (1 << ty.w)
            if ty.s and n >= 1 << (ty.w - 1):
                n -= 1 << ty.w
            return iv(n)
        if not ty.s:
            if self.qf(st, x >= 0):
                return x
            return z3.If(x >= 0, x, x + iv(1 << ty.w))
        # to signed
        lim = 1 << (ty.w - 1)
        if self.qf(st, x < lim):
            return x
        if ty.w >= 64:
            return z3.If(x < lim, x, x - iv(1 << ty.w))
        self.assumptions.add("narrowing integer conversions keep the value")
        return x

    def e_cast(self, st, e):
        ck = e["ck"]
        t = e["t"]
        if ck == "ToVoid":
            return [(s, None) for s, v in self.ev(st, e["x"])]
        outs = []
        for s, v in self.ev(st, e["x"]):
            if ck == "LValueToRValue":
                outs.append((s, self.ld(s, v)))
            elif ck in ("NoOp", "ConstructorConversion", "UserDefinedConversion", "DerivedToBase",
                        "UncheckedDerivedToBase", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BaseToDerived",
                        "Dynamic", "AtomicToNonAtomic", "NonAtomicToAtomic", "LValueBitCast"):
                outs.append((s, v))
            elif ck == "ArrayToPointerDecay":
                if isinstance(v, LV):
                    vv = self.rd(s, v)
                    if isinstance(vv, VecV):
                        outs.append((s, IterV(v, iv(0), False, vv.elty)))
                        continue
                    v = vv
                outs.append((s, v))
            elif ck in ("IntegralCast", "BooleanToSignedIntegral"):
                v = self.ld(s, v)
                outs.append((s, self.toint(s, v, t)))
            elif ck == "IntegralToFloating":
                v = self.ld(s, v)
                if v.sort() == B:
                    v = z3.If(v, iv(1), iv(0))
                outs.append((s, Fl(z3.simplify(z3.ToReal(v)))))
            elif ck == "FloatingCast":
                outs.append((s, self.ld(s, v)))
            elif ck == "FloatingToIntegral":
                v = self.ld(s, v)
                outs.append((s, self.ftoi(s, v, t)))
            elif ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
                outs.append((s, self.tobool(self.ld(s, v))))
            elif ck == "NullToPointer":
                outs.append((s, PtrV(TRUE, None)))
            elif ck == "BitCast":
                outs.append((s, v))
            else:
                raise Unsupported("cast " + ck)
        return outs

    def ftoi(self, st, v, ty):
        if v.k is not None:
            self.ob(st, "finite float to int conversion", fin(v))
        f = z3.ToInt(v.r)
        r = whole(v.r)
        if r is not None:
            pass
        elif self.qf(st, v.r >= 0):
            r = f
        else:
            r = z3.If(v.r >= 0, f, -z3.ToInt(-v.r))
        if not ty.s:
            self.ob(st, "float to unsigned conversion not negative", v.r > -1)
        return z3.simplify(r)

    # ---- operators
    def e_bin(self, st, e):
        op = e["op"]
        if op in ("&&", "||"):
            return self.logic(st, e)
        if op == ",":
            outs = []
            for s, _ in self.ev(st, e["a"]):
                outs += self.ev(s, e["b"])
            return outs
        if op == "=":
            outs = []
            for s, b in self.rv(st, e["b"]):
                for s2, a in self.ev(s, e["a"]):
                    if not isinstance(a, LV):
                        raise Unsupported("assignment to rvalue")
                    self.assign(s2, a, b, e["a"]["t"])
                    outs.append((s2, a))
            return outs
        outs = []
        for s, (a, b) in self.rvs(st, [e["a"], e["b"]]):
            outs.append((s, self.binop(s, op, a, b, e["t"], e["a"]["t"])))
        return outs

    def assign(self, st, lv, v, ty=None):
        self.wr(st, lv, v)

    def logic(self, st, e):
        op = e["op"]
        outs = []
        for s, a in self.cond(st, e["a"]):
            a = z3.simplify(a)
            if z3.is_true(a) or z3.is_false(a):
                if z3.is_true(a) == (op == "||"):
                    outs.append((s, a))
                else:
                    outs += self.cond(s, e["b"])
                continue
            # evaluate the right operand under the guard, merge if it is pure
            s2 = s.copy()
            s2.add(a if op == "&&" else z3.Not(a))
            base = len(s2.pc)
            nob = len(self.obs)
            mem0 = s2.mem
            snk = len(self.sinks[-1])
            rs = self.cond(s2, e["b"])
            if len(rs) == 1 and len(self.sinks[-1]) == snk and self.samemem(s, rs[0][0]):
                s3, b = rs[0]
                g = a if op == "&&" else z3.Not(a)
                for c in s3.pc[base:]:
                    s.add(z3.Implies(g, c))
                for c, val in s3.mem.items():
                    if c not in s.mem:
                        s.mem[c] = val
                outs.append((s, z3.simplify(z3.And(a, b) if op == "&&" else z3.Or(a, b))))
            else:
                for s3, b in rs:
                    outs.append((s3, b))
                s.add(z3.Not(a) if op == "&&" else a)
                if self.feasible(s):
                    outs.append((s, FALSE if op == "&&" else TRUE))
        return outs

    def samemem(self, a, b):
        for c, v in a.mem.items():
            w = b.mem.get(c)
            if w is not v:
                if isinstance(w, z3.ExprRef) and isinstance(v, z3.ExprRef) and w.eq(v):
                    continue
                return False
        return True

    def merge_pure(self, base_st, npc, outs):
        """merge value outcomes whose memory did not change (relative to base memory)"""
        if len(outs) <= 1:
            return outs
        for s, v in outs:
            if not self.samemem_base(base_st, s) or isinstance(v, LV):
                return outs
            for c in s.pc[npc:]:
                if hasq(c):
                    return outs
        try:
            s0, val = outs[-1]
            conds = []
            for s, v in outs:
                ex = s.pc[npc:]
                conds.append(z3.And(*ex) if len(ex) > 1 else (ex[0] if ex else TRUE))
            for (s, v), c in list(zip(outs, conds))[-2::-1]:
                val = ite(c, v, val) if v is not None else None
        except Unsupported:
            return outs
        r = base_st.copy()
        r.pc = r.pc[:npc]
        for s, _ in outs:
            for c, v in s.mem.items():
                if c not in r.mem:
                    r.mem[c] = v
        # conditions are exclusive and (after feasibility pruning) exhaustive given throws
        r.add(z3.simplify(z3.Or(*conds)))
        return [(r, val)]

    def samemem_base(self, base, s):
        for c, v in base.mem.items():
            if s.mem.get(c) is not v:
                return False
        return True

    def e_cond(self, st, e):
        outs = []
        for s, c in self.cond(st, e["c"]):
            base = s.copy()
            npc = len(s.pc)
            snk = len(self.sinks[-1])
            rs = []
            for s2, b in self.branch(s, c):
                rs += self.ev(s2, e["a"] if b else e["b"])
            if len(rs) > 1 and len(self.sinks[-1]) == snk:
                rs2 = []
                for s2, v in rs:
                    rs2.append((s2, v))
                if all(isinstance(v, LV) for _, v in rs2) and not e.get("lv"):
                    rs2 = [(s2, self.ld(s2, v)) for s2, v in rs2]
                rs = self.merge_pure(base, npc, rs2)
            outs += rs
        return outs

    def binop(self, st, op, a, b, ty, aty=None):
        if isinstance(a, (PtrV, SPtrV)) or isinstance(b, (PtrV, SPtrV)):
            if op in ("==", "!="):
                r = self.ptreq(a, b)
                return r if op == "==" else z3.Not(r)
        if isinstance(a, IterV):
            return self.iterop(st, op, a, b)
        if isinstance(b, IterV) and op == "+":
            return self.iterop(st, op, b, a)
        if isinstance(a, Fl) or isinstance(b, Fl):
            return self.flop(st, op, a, b)
        if not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)):
            raise Unsupported("binary %s on %r %r" % (op, type(a), type(b)))
        if a.sort() == B and b.sort() != B:
            a = z3.If(a, iv(1), iv(0))
        if b.sort() == B and a.sort() != B:
            b = z3.If(b, iv(1), iv(0))
        if op == "==":
            return z3.simplify(a == b)
        if op == "!=":
            return z3.simplify(a != b)
        if a.sort() == B:
            if op in ("&", "|", "^"):
                return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a, b)
            a = z3.If(a, iv(1), iv(0)); b = z3.If(b, iv(1), iv(0))
        if a.sort() == Str or a.sort() == Obj:
            raise Unsupported("binary %s on strings" % op)
        if op == "<":
            return z3.simplify(a < b)
        if op == "<=":
            return z3.simplify(a <= b)
        if op == ">":
            return z3.simplify(a > b)
        if op == ">=":
            return z3.simplify(a >= b)
        if op == "+":
            return self.norm(a + b)
        if op == "*":
            return self.norm(a * b)
        if op == "-":
            r = self.norm(a - b)
            if ty is not None and ty.k == "int" and not ty.s:
                return self.wrap(st, r, ty)
            return r
        if op in ("/", "%"):
            self.ob(st, "integer division by zero", b != 0)
            if self.qf(st, z3.And(a >= 0, b > 0)):
                return z3.simplify(a / b) if op == "/" else z3.simplify(a % b)
            q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / -b)), z3.If(b > 0, -(-a / b), (-a) / (-b)))
            return z3.simplify(q) if op == "/" else z3.simplify(a - q * b)
        if op in ("&", "|", "^", "<<", ">>"):
            return self.bitop(st, op, a, b, ty)
        raise Unsupported("int op " + op)

    def norm(self, x):
        return z3.simplify(x)

    def bitop(self, st, op, a, b, ty):
        if isnum(a) and isnum(b):
            x, y = a.as_long(), b.as_long()
            return iv({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
        if op == "<<":
            if isnum(b):
                return z3.simplify(a * (1 << b.as_long()))
            p2 = self.pow2(st, b)
            return p2 if isnum(a) and a.as_long() == 1 else a * p2
        if op == ">>" and isnum(b):
            return a / (1 << b.as_long())
        if op in ("&", "|"):
            # constants with one bit set, or all low bits set, are arithmetic (two's complement, floor division)
            if isnum(a) and not isnum(b):
                a, b = b, a
            if isnum(b) and b.as_long() >= 0:
                m = b.as_long()
                if m == 0:
                    return iv(0) if op == "&" else a
                one = m & (m - 1) == 0
                if one or (m & (m + 1) == 0 and op == "&"):
                    t = (a / m) % 2 * m if one and m > 1 else a % (m + 1)
                    return z3.simplify(t) if op == "&" else z3.simplify(a + m - t)
            # zero/one operands are decided exactly, the rest is uninterpreted
            g = self.W.uf("bitand" if op == "&" else "bitor", I, I, I)(a, b)
            both = z3.And(a == 1, b == 1) if op == "&" else z3.Or(a == 1, b == 1)
            return z3.If(z3.And(0 <= a, a <= 1, 0 <= b, b <= 1), z3.If(both, iv(1), iv(0)), g)
        f = self.W.uf("bit" + {"&": "and", "|": "or", "^": "xor", ">>": "shr"}[op], I, I, I)
        return f(a, b)

    def pow2(self, st, b):
        return self.W.uf("pow2", I, I)(b)

    def ptreq(self, a, b):
        if isinstance(a, PtrV) and a.lv is None:
            return b.null if not z3.is_true(a.null) or True else FALSE
        if isinstance(b, PtrV) and b.lv is None:
            return a.null
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.lv.cell == b.lv.cell and same_path(a.lv.path, b.lv.path):
                return a.null == b.null
        raise Unsupported("pointer comparison")

    def iterop(self, st, op, a, b):
        if isinstance(b, IterV):
            if op in ("==", "!=", "<", "<=", ">", ">=", "-"):
                if a.lv.cell != b.lv.cell or not same_path(a.lv.path, b.lv.path):
                    raise Unsupported("iterators of different containers")
                x, y = (a.idx, b.idx) if not a.rev else (b.idx, a.idx)
                return z3.simplify({"==": x == y, "!=": x != y, "<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y,
                                    "-": x - y}[op])
        else:
            d = b if not a.rev else -b
            if op == "+":
                return IterV(a.lv, z3.simplify(a.idx + d), a.rev, a.elty)
            if op == "-":
                return IterV(a.lv, z3.simplify(a.idx - d), a.rev, a.elty)
        raise Unsupported("iterator op " + op)

    def tofl(self, x):
        if isinstance(x, Fl):
            return x
        if isinstance(x, z3.ExprRef):
            if x.sort() == B:
                x = z3.If(x, iv(1), iv(0))
            if x.sort() == I:
                return Fl(z3.simplify(z3.ToReal(x)))
        raise Unsupported("float from %r" % type(x))

    def flop(self, st, op, a, b):
        a = self.tofl(a); b = self.tofl(b)
        if op == "+":
            return self.fs(add(a, b))
        if op == "-":
            return self.fs(sub(a, b))
        if self.opaque_mul and op in "*/" and a.k is None and b.k is None and not isnum(b.r) and not (op == "*" and isnum(a.r)):
            x, y = (a.r, b.r) if op == "/" or a.r.get_id() <= b.r.get_id() else (b.r, a.r)
            if op == "*" or self.qf(st, b.r != 0):
                return Fl(self.W.uf("fmul" if op == "*" else "fdiv", R, R, R)(x, y))
        if op == "*":
            return self.fs(mul(a, b))
        if op == "/":
            nz = self.W.qf_inst(st, b.r != 0) if b.k is None else False
            if not nz and b.k is None and self.W.assume_div:
                self.ob(st, "floating division by zero", b.r != 0, kind="div")
                nz = True
            return self.fs(div(a, b, nz))
        r = {"<": lambda: lt(a, b), ">": lambda: lt(b, a), "<=": lambda: le(a, b), ">=": lambda: le(b, a),
             "==": lambda: eq(a, b), "!=": lambda: z3.Not(eq(a, b))}[op]()
        return z3.simplify(r)

    def fs(self, x):
        if isnum(x.r):
            return x
        r = x.r
        if all(isnum(c) for c in r.children()) or any(isnum(c) for c in r.children()):
            r = z3.simplify(r)
        return Fl(r, x.k)

    def e_cassign(self, st, e):
        op = e["op"].rstrip("=")
        if op in ("<", ">"):
            op = e["op"][:-1]
        outs = []
        for s, b in self.rv(st, e["b"]):
            for s2, a in self.ev(s, e["a"]):
                if not isinstance(a, LV):
                    raise Unsupported("compound assign to rvalue")
                cur = self.ld(s2, a)
                lt_ = e["a"]["t"].deref()
                ct = e.get("ct") or e["t"]
                if isinstance(cur, IterV):
                    r = self.iterop(s2, op, cur, b)
                else:
                    x = cur
                    if ct.k == "float":
                        x = self.tofl(x); b = self.tofl(b)
                    elif ct.k == "int" and isinstance(x, z3.ExprRef):
                        x = self.toint(s2, x, ct)
                    r = self.binop(s2, op, x, b, ct)
                    if lt_.k == "int" and isinstance(r, Fl):
                        r = self.ftoi(s2, r, lt_)
                    elif lt_.k == "bool":
                        r = self.tobool(r)
                    elif lt_.k == "int" and ct.k == "int" and (lt_.w != ct.w or lt_.s != ct.s):
                        r = self.toint(s2, r, lt_)
                    elif lt_.k == "int" and isinstance(r, z3.ExprRef) and r.sort() == B:
                        r = z3.If(r, iv(1), iv(0))
                self.assign(s2, a, r)
                outs.append((s2, a))
        return outs

    def e_un(self, st, e):
        op = e["op"]
        outs = []
        if op in ("++", "--"):
            for s, a in self.ev(st, e["x"]):
                cur = self.ld(s, a)
                old = cur
                d = 1 if op == "++" else -1
                if isinstance(cur, Fl):
                    new = self.fs(add(cur, flc(d)))
                elif isinstance(cur, IterV):
                    new = self.iterop(s, "+", cur, iv(d))
                elif isinstance(cur, z3.ExprRef) and cur.sort() == I:
                    new = z3.simplify(cur + d)
                    ty = e["x"]["t"].deref()
                    if d < 0 and ty.k == "int" and not ty.s:
                        new = self.wrap(s, new, ty)
                else:
                    raise Unsupported("++ on %r" % type(cur))
                self.assign(s, a, new)
                outs.append((s, old if e.get("post") else a))
            return outs
        if op == "&":
            for s, a in self.ev(st, e["x"]):
                if isinstance(a, FnRef):
                    outs.append((s, a)); continue
                if not isinstance(a, LV):
                    raise Unsupported("address of rvalue")
                if a.path and a.path[-1][0] == "i":
                    outs.append((s, IterV(LV(a.cell, a.path[:-1]), a.path[-1][1])))
                else:
                    outs.append((s, PtrV(FALSE, a)))
            return outs
        if op == "*":
            for s, a in self.ev(st, e["x"]):
                if isinstance(a, FnRef):
                    outs.append((s, a)); continue
                try:
                    outs.append((s, self.deref(s, a)))
                except Dead:
                    pass
            return outs
        for s, a in self.rv(st, e["x"]):
            if op == "!":
                outs.append((s, z3.simplify(z3.Not(self.tobool(a)))))
            elif op == "-":
                if isinstance(a, Fl):
                    r = neg(a)
                    if isnum(r.r) or z3.is_app(r.r) and isnum(z3.simplify(r.r)):
                        r = Fl(z3.simplify(r.r), r.k)
                    outs.append((s, r))
                else:
                    r = z3.simplify(-a)
                    ty = e["t"]
                    if ty.k == "int" and not ty.s:
                        r = self.wrap(s, r, ty)
                    outs.append((s, r))
            elif op == "+":
                outs.append((s, a))
            elif op == "~":
                if isnum(a):
                    outs.append((s, self.wrap(s, iv(~a.as_long()), e["t"])))
                else:
                    outs.append((s, z3.simplify(-a - 1)))
            else:
                raise Unsupported("unary " + op)
        return outs

    def e_sub(self, st, e):
        outs = []
        for s, (a, b) in self.evs(st, [e["a"], e["b"]]):
            b = self.ld(s, b)
            if isinstance(a, LV):
                v = self.rd(s, a)
                if isinstance(v, VecV):
                    self.ob(s, "array index in bounds", z3.And(b >= 0, b < v.n))
                    outs.append((s, a.i(b, v.elty)))
                    continue
                a = v
            if isinstance(a, IterV):
                outs.append((s, self.iterlv(s, a, b)))
                continue
            raise Unsupported("subscript of %r" % type(a))
        return outs

    # ---- construction
    def default(self, st, ty):
        """value-initialised object"""
        if ty.k == "bool":
            return FALSE
        if ty.k in ("int", "enum"):
            return iv(0)
        if ty.k == "float":
            return flc(0)
        if ty.k == "ptr":
            return PtrV(TRUE, None)
        if ty.k == "rec":
            if is_str(ty):
                return self.W.strlit("")
            if ty.tn == "std::array":
                d = self.default(st, ty.args[0])
                return VecV(ty.args[0], iv(ty.args[1]), self.lift(d))
            if ty.tn in VECS:
                return VecV(ty.args[0], iv(0), self.junk(ty.args[0]))
            if ty.tn in SPTR:
                return SPtrV(ty, TRUE, None, lambda: self.default(st, ty.args[0]))
            if ty.tn in MAPS:
                ks = key_sort(ty.args[0])
                return MapV(ty.args[0], ty.args[1], z3.K(ks, FALSE),
                            fresh(self.W, "empty", ty.args[1], (ks,)), iv(0))
            if ty.tn in SETS:
                ks = key_sort(ty.args[0])
                return MapV(ty.args[0], None, z3.K(ks, FALSE), None, iv(0))
            if ty.tn == "std::pair":
                return StructV(ty, FnSrc(lambda f: None), {"first": self.default(st, ty.args[0]),
                                                           "second": self.default(st, ty.args[1])})
            if ty.tn == "std::tuple":
                return StructV(ty, FnSrc(lambda f: None),
                               {str(i): self.default(st, a) for i, a in enumerate(ty.args)})
            fs = self.prog.fields(ty)
            if fs is not None:
                return self.defstruct(st, ty)
        raise Unsupported("default value of " + ty.p)

    def lift(self, v, sort=I):
        k = z3.Const("lk!" + str(sort), sort)
        return abstract(v, k)

    def junk(self, ty):
        return fresh(self.W, "junk", ty, (I,))

    def defstruct(self, st, ty, zero=True):
        """default member values: in-class initialisers, else zero/uninitialised"""
        fs = self.prog.fields(ty)
        over = {}
        sv = StructV(ty, FreshSrc(self.W, "uninit:" + ty.n.split("::")[-1], ty, ()))
        for f, (ft, init) in fs.items():
            if init is not None:
                r = self.rv(st, init)
                if len(r) != 1:
                    raise Unsupported("forking member initialiser")
                over[f] = r[0][1]
            elif zero or (ft.k == "rec"):
                try:
                    over[f] = self.default(st, ft)
                except Unsupported:
                    pass
        sv.over = over
        return sv

    def e_valueinit(self, st, e):
        return [(st, self.default(st, e["t"]))]

    def e_initlist(self, st, e):
        if e["t"].k == "rec" and e["t"].tn in FUNCTORS:
            from .stdlib import CONSTRUCT
            return [(st, CONSTRUCT[e["t"].tn](self, st, e, e["t"], []))]
        t = e["t"].deref()
        outs = []
        for s, vs in self.rvs(st, e["a"]):
            outs.append((s, self.mkinit(s, t, vs)))
        return outs

    def mkinit(self, s, t, vs):
        if t.k == "arr" or t.k == "rec" and t.tn in VECS:
            if t.tn == "std::array" and len(vs) == 1 and isinstance(vs[0], VecV):
                return VecV(t.args[0], iv(t.args[1]), vs[0].el)
            elt = t.t if t.k == "arr" else t.args[0]
            v = self.mkvec(s, elt, vs)
            if t.k == "arr" and t.num is not None and t.num > len(vs):
                d = self.default(s, elt)
                el = v.el
                for j in range(len(vs), t.num):
                    el = sto(el, iv(j), d)
                v = VecV(elt, iv(t.num), el)
            if t.tn == "std::array":
                v = VecV(elt, iv(t.args[1]), v.el)
            return v
        if t.k == "rec":
            fs = self.prog.fields(t)
            if fs is None and t.tn == "std::pair":
                return StructV(t, FnSrc(lambda f: None), {"first": vs[0], "second": vs[1]})
            if fs is not None:
                # bases are initialised first
                sv = self.defstruct(s, t, zero=False)
                names = list(fs)
                over = dict(sv.over)
                if len(vs) == 1 and isinstance(vs[0], StructV) and vs[0].ty is t:
                    return vs[0]
                rec = self.prog.records.get(t.n)
                nb = 0
                vals = list(vs)
                for b in rec.get("bases", []):
                    if vals and isinstance(vals[0], StructV) and vals[0].ty.n == b.n:
                        bs = vals.pop(0)
                        for f in self.prog.fields(b) or {}:
                            over[f] = bs.get(f)
                            names.remove(f)
                for f, v in zip(names, vals):
                    if v is not None:
                        over[f] = v
                sv.over = over
                return sv
        if len(vs) == 1:
            return vs[0]
        if len(vs) == 0:
            return self.default(s, t)
        raise Unsupported("init list of " + t.p)

    def mkvec(self, st, elty, vs):
        n = len(vs)
        el = self.junk(elty)
        if n and isinstance(vs[0], Fl) and all(isinstance(v, Fl) for v in vs):
            if any(v.k is not None for v in vs):
                el = Fl(el.r, z3.K(I, iv(0)))
        for i, v in enumerate(vs):
            el = sto(el, iv(i), v)
        return VecV(elty, iv(n), el)

    def e_stdilist(self, st, e):
        outs = []
        x = e["x"]
        for s, v in self.ev(st, x):
            outs.append((s, self.ld(s, v)))
        return outs

    def e_new(self, st, e):
        outs = []
        x = e.get("x") or e.get("init")
        if x is None:
            t = e["t"].t
            return [(st, PtrV(FALSE, self.cell(st, t, self.default(st, t))))]
        for s, v in self.rv(st, x):
            outs.append((s, PtrV(FALSE, self.cell(s, e["t"].t, v))))
        return outs

    def e_delete(self, st, e):
        return [(st, None)]

    def e_throw(self, st, e):
        code = self.throwcode(e.get("x"))
        self.throw(st, code)
        return []

    def throwcode(self, x):
        if x is None:
            return "rethrow"
        found = []

        def walk(n):
            if isinstance(n, dict):
                if n.get("en"):
                    found.append(n["en"])
                if n.get("e") == "ref" and n.get("k") == "enum":
                    found.append(n.get("n"))
                for k, v in n.items():
                    if isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(n, list):
                for v in n:
                    walk(v)
        walk(x)
        for f in found:
            return f.split("::")[-1]
        t = x.get("t")
        return t.p if t is not None else "?"

    def e_lambda(self, st, e):
        caps = {}
        bad = None
        for c in e.get("caps", []):
            if c.get("k") == "this":
                continue
            b = None
            if c.get("init") is not None and c.get("k") == "init":
                r = self.rv(st, c["init"])
                if len(r) != 1:
                    raise Unsupported("forking capture")
                st = r[0][0]
                b = self.cell(st, c["init"]["t"].deref(), r[0][1])
            else:
                b = st.env[-1].get(c["id"])
                if b is None:
                    raise Unsupported("capture of unbound variable %s" % c.get("n"))
                if c.get("k") in ("copy", "val", "byval"):
                    b = self.cell(st, b.ty if isinstance(b, LV) else None, self.ld(st, b))
            caps[c["id"]] = b
        return [(st, ClosV(e, caps, st.this[-1], e["t"]))]

    def e_construct(self, st, e):
        t = e["t"].deref()
        f = e.get("f")
        a = e["a"]
        if (e.get("copy") or e.get("move")) and len(a) == 1:
            if not self.user_copy(f):
                return self.rv(st, a[0])
        q = nq(f["q"]) if f else ""
        if t.k == "rec" and t.tn.startswith("Formatter"):
            return [(st, PyV("ignored"))]
        from . import stdlib
        m = stdlib.CONSTRUCT.get(t.tn)
        if m is not None:
            outs = []
            for s, vs in self.evs(st, a):
                r = m(self, s, e, t, vs)
                outs += r if isinstance(r, list) else [(s, r)]
            return outs
        return self.construct_user(st, e, t, f, a)

    def user_copy(self, f):
        if f is None:
            return False
        fn = self.prog.fn(f["key"])
        return fn is not None and fn.get("body") is not None and not f.get("implicit") and not fn.get("defaulted")

    def construct_user(self, st, e, t, f, a):
        if t.k == "rec" and t.lam:
            return self.rv(st, a[0])
        fn = self.prog.fn(f["key"]) if f else None
        con = self.contracts.get(f["key"]) if f else None
        outs = []
        if con is not None:
            for s, vs in self.evs(st, a):
                tgt = self.cell(s, t, StructV(t, FreshSrc(self.W, "obj", t, ())))
                for s2, r in self.call_contract(s, con, tgt, vs, e):
                    outs.append((s2, self.rd(s2, tgt)))
            return outs
        if fn is None or fn.get("body") is None:
            if not a or (f and f.get("implicit")):
                if not a:
                    return [(st, self.defstruct(st, t, zero=bool(e.get("zero"))))]
                if len(a) == 1:
                    return self.rv(st, a[0])
            raise Unsupported("constructor of %s without body" % t.p)
        for s, vs in self.evs(st, a):
            base = self.defstruct_uninit(s, t)
            tgt = self.cell(s, t, base)
            for s2, r in self.call_fn(s, fn, vs, tgt, e):
                outs.append((s2, self.rd(s2, tgt)))
        return outs

    def defstruct_uninit(self, st, t):
        return StructV(t, FreshSrc(self.W, "uninit:" + t.n.split("::")[-1], t, ()))

    # ---- calls
    def ignored(self, f):
        q = nq(f["q"])
        if q in self.ignore_fns:
            return True
        for c in self.ignore:
            if q == c or q.startswith(c + "::"):
                return True
        return False

    def ignval(self, st, e):
        t = e["t"]
        if t is None or t.k == "void":
            return [(st, None)]
        return [(st, PyV("ignored"))]

    def e_call(self, st, e):
        f = e.get("f")
        if f is None:
            outs = []
            for s, c in self.rv(st, e["callee"]):
                for s2, vs in self.evs(s, e["a"]):
                    outs += self.call_value(s2, c, vs, e)
            return outs
        if self.ignored(f):
            return self.ignval(st, e)
        if f.get("cls") is not None and f.get("static") is False and False:
            pass
        return self.call_named(st, e, f, None, e["a"])

    def e_opcall(self, st, e):
        f = e["f"]
        if self.ignored(f):
            return self.ignval(st, e)
        a = e["a"]
        q = nq(f["q"])
        if f.get("cls") is not None and not f.get("static"):
            # member operator: first argument is the object
            if e["op"] == "=" and not self.user_copy(f) and len(a) == 2 and self.contracts.get(f["key"]) is None:
                from . import stdlib
                if q not in stdlib.MODELS:
                    outs = []
                    for s, b in self.rv(st, a[1]):
                        for s2, x in self.ev(s, a[0]):
                            if not isinstance(x, LV):
                                x = self.cell(s2, a[0]["t"], x)
                            self.assign(s2, x, self.coerce(s2, b, a[0]["t"]))
                            outs.append((s2, x))
                    return outs
            return self.call_named(st, e, f, a[0], a[1:])
        return self.call_named(st, e, f, None, a)

    def coerce(self, st, v, ty):
        return v

    def e_mcall(self, st, e):
        f = e["f"]
        if self.ignored(f):
            if self.warncells and f["q"] == "NSEpic::CFlagWarning::warning":
                a0 = e["a"][0]
                while a0.get("e") not in ("ref", None) and isinstance(a0.get("a"), dict):
                    a0 = a0["a"]
                n = a0.get("n") if a0.get("en") or a0.get("e") == "ref" and a0.get("k") == "enum" else None
                if n is None:
                    raise Unsupported("warning with a computed code")
                c = self.warncells.get(n)
                if c is not None:
                    self.wr(st, c, iv(1))
            return self.ignval(st, e)
        return self.call_named(st, e, f, e["obj"], e["a"])

    def call_named(self, st, e, f, obj, args):
        from . import stdlib
        q = nq(f["q"])
        key = f["key"]
        outs = []
        m = stdlib.MODELS.get(q)
        if m is None and f["q"].startswith("std::") or q.startswith("__gnu_cxx"):
            m = m or stdlib.generic(q)
        if m is None and f.get("cls") is not None and f["cls"].lam and q.endswith("operator()"):
            m = None
        con = self.contracts.get(key)
        if m is None and con is None:
            # lambda objects
            pass
        for s, vs in self.evs(st, ([obj] if obj is not None else []) + list(args)):
            try:
                if obj is not None:
                    o = vs[0]
                    rest = vs[1:]
                    if e.get("arrow"):
                        o = self.deref(s, o)
                else:
                    o = None
                    rest = vs
                ov = self.ld(s, o) if o is not None and not isinstance(o, (StructV,)) and self.maybe_clos(o, f) else None
                if isinstance(ov, (ClosV, FnRef, PyV)):
                    outs += self.call_value(s, ov, rest, e)
                    continue
                if m is not None and con is None:
                    self.funcs_used.add(("std", q))
                    r = m(self, s, e, o, rest) if obj is not None else m(self, s, e, *([rest] if True else []))
                    if isinstance(r, list):
                        outs += r
                    else:
                        outs.append((s, r))
                    continue
                outs += self.call_user(s, e, f, o, rest)
            except Dead:
                continue
        return outs

    def maybe_clos(self, o, f):
        q = f["q"]
        return q.endswith("operator()")

    def call_user(self, s, e, f, o, vs):
        key = f["key"]
        con = self.contracts.get(key)
        if f.get("virt") and not e.get("qual"):
            ovs = self.prog.overriders.get(key)
            # dynamic type known?
            if o is not None:
                v = None
                try:
                    v = self.ld(s, o)
                except Unsupported:
                    pass
                if isinstance(v, StructV) and getattr(v.ty, "n", None):
                    k2 = self.resolve_virtual(v.ty, key)
                    if k2:
                        key = k2
                        con = self.contracts.get(key, con if k2 == f["key"] else None)
                        ovs = None
            if ovs and con is None:
                raise Unsupported("virtual call to %s" % f["q"])
        if o is not None and not isinstance(o, LV) and not f.get("static"):
            o = self.cell(s, f.get("cls"), self.ld(s, o))
        if f.get("static"):
            o = None
        if con is not None and con.usable:
            return self.call_contract(s, con, o, vs, e)
        fn = self.prog.fn(key)
        if fn is None or fn.get("body") is None:
            if f.get("implicit") and not vs:
                return [(s, None)]
            raise Unsupported("no body or contract for %s" % f["q"])
        return self.call_fn(s, fn, vs, o, e)

    def resolve_virtual(self, ty, key):
        """the final overrider of method `key` for dynamic class ty (exact static class assumed dynamic)"""
        fn = self.prog.fn(key)
        if fn is None:
            return None
        name = fn["q"].split("::")[-1]
        cls = [ty]
        while cls:
            c = cls.pop(0)
            for k in self.prog.byname.get(c.n + "::" + name, []):
                g = self.prog.fn(k)
                if len(g["params"]) == len(fn["params"]):
                    return k
            rec = self.prog.records.get(c.n)
            if rec:
                cls += rec.get("bases", [])
        return None

    def call_fn(self, st, fn, args, this, e=None):
        """inline"""
        key = fn["key"]
        if self.depth > 25 or self.inline_stack.count(key) > 2:
            raise Unsupported("inlining depth at " + fn["q"])
        self.funcs_used.add(("inline", fn["q"]))
        base = st.copy() if True else None
        npc = len(st.pc)
        snk = len(self.sinks[-1])
        outs = self.run_fn(st, fn, args, this)
        if len(outs) > 1:
            outs = self.merge_pure(base, npc, outs)
        return outs

    def run_fn(self, st, fn, args, this):
        env = {}
        ps = fn["params"]
        args = list(args)
        if len(args) < len(ps):
            raise Unsupported("missing arguments for " + fn["q"])
        for p, a in zip(ps, args):
            env[p["id"]] = self.bindparam(st, p["t"], a)
        st.env.append(env)
        st.this.append(this)
        self.depth += 1
        self.inline_stack.append(fn["key"])
        self.inlined.add(fn["q"])
        line = self.line
        try:
            sts = [st]
            if fn.get("inits"):
                sts = self.run_inits(st, fn, this)
            res = []
            snk = self.sinks[-1]
            mark = len(snk)
            for s in sts:
                for kind, s2, v in self.exec(s, fn["body"]):
                    if kind == "n":
                        v = None
                    elif kind != "r":
                        raise Unsupported("stray " + kind)
                    res.append((s2, v))
        finally:
            self.depth -= 1
            self.inline_stack.pop()
            self.line = line
        for s2, v in res:
            s2.env.pop(); s2.this.pop()
            s2.env[-1] = dict(s2.env[-1])
        for s2, c in snk[mark:]:
            # unwound states: frames are dropped by whoever catches
            pass
        return res

    def bindparam(self, st, t, a):
        if t.k == "ref":
            if isinstance(a, LV):
                return a
            if isinstance(a, (ClosV, FnRef, PyV)):
                return self.cell(st, t.t, a)
            return self.cell(st, t.t, a)
        return self.cell(st, t, self.ld(st, a))

    def run_inits(self, st, fn, this):
        sts = [st]
        for i in fn.get("inits") or []:
            nxt = []
            for s in sts:
                x = i.get("x")
                if x is None:
                    nxt.append(s)
                    continue
                if i.get("base") is not None:
                    if x["e"] == "construct":
                        f = x.get("f")
                        bf = self.prog.fn(f["key"]) if f else None
                        con = self.contracts.get(f["key"]) if f else None
                        if bf is not None and bf.get("body") is not None:
                            for s2, vs in self.evs(s, x["a"]):
                                for s3, _ in self.run_fn(s2, bf, vs, this):
                                    nxt.append(s3)
                            continue
                        if x.get("copy") or x.get("move"):
                            for s2, v in self.rv(s, x["a"][0]):
                                for fld in self.prog.fields(i["base"]) or {}:
                                    self.wr(s2, this.f(fld), v.get(fld))
                                nxt.append(s2)
                            continue
                        # default base: in-class initialisers
                        flds = self.prog.fields(i["base"])
                        if flds is None:
                            nxt.append(s); continue
                        bv = self.defstruct(s, i["base"], zero=False)
                        for fld in bv.over:
                            self.wr(s, this.f(fld), bv.over[fld])
                        nxt.append(s)
                        continue
                    if x["e"] == "inhctor":
                        raise Unsupported("inherited constructor")
                    for s2, v in self.rv(s, x):
                        nxt.append(s2)
                    continue
                if i.get("delegating"):
                    for s2, v in self.rv(s, x):
                        self.wr(s2, this, v)
                        nxt.append(s2)
                    continue
                if i.get("m") is None:
                    for s2, v in self.rv(s, x):
                        self.wr(s2, this, v)
                        nxt.append(s2)
                    continue
                isref = False
                fl_ = self.prog.fields(fn["cls"]) if fn.get("cls") is not None else None
                if fl_ and i["m"] in fl_ and fl_[i["m"]][0].k == "ref":
                    isref = True
                for s2, v in self.ev(s, x):
                    if isref:
                        v = PtrV(FALSE, self.lvof(s2, v, fl_[i["m"]][0].t))
                    else:
                        v = self.ld(s2, v)
                    self.wr(s2, this.f(i["m"]), v)
                    nxt.append(s2)
            sts = nxt
        return sts

    def call_value(self, st, c, args, e=None):
        """call a closure / function reference with evaluated args"""
        c = self.ld(st, c)
        if isinstance(c, PyV):
            if c.kind == "fn":
                r = c.data(self, st, args)
                return r if isinstance(r, list) else [(st, r)]
            raise Unsupported("call of " + c.kind)
        if isinstance(c, FnRef):
            f = c.info
            from . import stdlib
            m = stdlib.MODELS.get(nq(f["q"]))
            if m is not None:
                r = m(self, st, e, args)
                return r if isinstance(r, list) else [(st, r)]
            return self.call_user(st, e or {}, f, None, args)
        if not isinstance(c, ClosV):
            raise Unsupported("call of %r" % type(c))
        node = c.node
        fk = node.get("fn")
        if fk is None or node.get("specs"):
            specs = node.get("specs") or []
            fk = None
            fns = [self.prog.fn(k) if isinstance(k, str) else k for k in specs]
            fns = [f for f in fns if f]
            if len(fns) > 1 and e is not None and e.get("f"):
                sel_ = [f for f in fns if f["key"] == e["f"]["key"]]
                fns = sel_ or fns
            if not fns:
                raise Unsupported("generic lambda")
            fn = fns[0]
        else:
            fn = self.prog.fn(fk) if isinstance(fk, str) else fk
        if fn is None or fn.get("body") is None:
            raise Unsupported("lambda body")
        base = st.copy()
        npc = len(st.pc)
        env = dict(c.caps)
        for p, a in zip(fn["params"], args):
            env[p["id"]] = self.bindparam(st, p["t"], a)
        st.env.append(env)
        st.this.append(c.this)
        self.depth += 1
        if self.depth > 25:
            raise Unsupported("depth")
        res = []
        try:
            for kind, s2, v in self.exec(st, fn["body"]):
                s2.env.pop(); s2.this.pop()
                s2.env[-1] = dict(s2.env[-1])
                res.append((s2, v if kind == "r" else None))
        finally:
            self.depth -= 1
        if len(res) > 1:
            res = self.merge_pure(base, npc, res)
        return res

    def pure_call(self, st, c, args, thr=None):
        n = len(thr) if thr is not None else 0
        try:
            return self.pure_call1(st, c, args, thr)
        except LazyChoice:   # fields of unread state are named on their first read
            if thr is not None:
                del thr[n:]
            return self.pure_call1(st, c, args, thr)

    def pure_call1(self, st, c, args, thr=None):
        """closure result as one value, no obligations, no state change kept"""
        s = st.copy()
        self.quiet += 1
        self.sinks.append([])
        wl, self.wlog = self.wlog, None
        n0 = len(s.pc)
        mk_ = int(uniq("pc").rsplit("!", 1)[1])
        try:
            rs = self.call_value(s, c, args)
        finally:
            self.quiet -= 1
            snk = self.sinks.pop()
            self.wlog = wl
        if snk:
            if thr is None or not rs:
                raise Unsupported("throwing predicate")
            thr += [z3.And(*s2.pc[n0:]) for s2, code in snk]
        rs = [(s2, self.ld(s2, v)) for s2, v in rs]
        if len(rs) == 1:
            val = rs[0][1]
        else:
            val = rs[-1][1]
            for s2, v in rs[-2::-1]:
                ex = s2.pc[n0:]
                val = ite(z3.And(*ex), v, val)
        for leaf in ([val.r] + ([val.k] if val.k is not None else []) if isinstance(val, Fl) else [val] if isinstance(val, z3.ExprRef) else []):
            for n in consts(leaf):
                if "!" in n and not n.startswith("def!"):
                    t = n.rsplit("!", 1)[1]
                    if t.isdigit() and int(t) > mk_:
                        raise LazyChoice("predicate with internal choice")
        return val

    # ------------------------------------------------------------ contracts
    def call_contract(self, st, con, this, args, e):
        from .contract import CallCtx
        outs = []
        fn = con.fn
        ctx = CallCtx(self, con, st, this, args)
        for name, p in con.pre(ctx):
            self.ob(st, "precondition of %s: %s" % (con.short, name), p, kind="pre")
        thr = con.throws(ctx) or {}
        normal = []
        for code, c in thr.items():
            s2 = st.copy()
            s2.add(c)
            if not z3.is_false(z3.simplify(c)) and self.feasible(s2):
                self.throw(s2, code)
            if code not in con.maythrow:
                normal.append(z3.Not(c))
        for c in normal:
            st.add(c)
        if not self.feasible(st):
            return []
        ctx.havoc(st)
        posts = [p for _, p in con.post(ctx)]
        # a result given by an equation is used as that term
        r = ctx.ret
        rc = r.r if isinstance(r, Fl) and r.k is None else r if z3.is_expr(r) else None
        if rc is not None and z3.is_const(rc) and rc.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            def conj(p):
                return [y for x in p.children() for y in conj(x)] if z3.is_and(p) else [p]
            for p in posts:
                d = None
                for q in conj(p):
                    if z3.is_eq(q):
                        for a, b in ((q.arg(0), q.arg(1)), (q.arg(1), q.arg(0))):
                            if a.eq(rc) and rc.decl().name() not in consts(b):
                                d = b
                                break
                    if d is not None:
                        break
                if d is not None:
                    posts = [z3.substitute(x, (rc, d)) for x in posts]
                    ctx.ret = Fl(d) if isinstance(r, Fl) else d
                    break
        for p in posts:
            st.add(p)
        self.funcs_used.add(("contract", con.q))
        return [(st, ctx.ret)]

    # ------------------------------------------------------------ statements
    def exec(self, st, s):
        """-> list of (kind, st, value)"""
        if s is None:
            return [("n", st, None)]
        m = getattr(self, "s_" + s["s"], None)
        if m is None:
            raise Unsupported("statement " + s["s"])
        return m(st, s)

    def s_unsupported(self, st, s):
        raise Unsupported("statement %s" % s.get("what", "?"))

    def s_null(self, st, s):
        return [("n", st, None)]

    def s_block(self, st, s):
        cur = [st]
        out = []
        for x in s["b"]:
            nxt = []
            for c in cur:
                for k, s2, v in self.exec(c, x):
                    if k == "n":
                        nxt.append(s2)
                    else:
                        out.append((k, s2, v))
            cur = nxt
            if len(cur) > self.maxpaths:
                cur = self.reduce(cur)
            if not cur:
                break
        return out + [("n", c, None) for c in cur]

    def reduce(self, sts):
        m = self.merge_states(sts)
        if m is not None:
            return [m]
        if len(sts) > 400:
            raise Unsupported("too many paths")
        return sts

    def common_prefix(self, sts):
        n = 0
        m = min(len(s.pc) for s in sts)
        while n < m and all(s.pc[n] is sts[0].pc[n] or s.pc[n].eq(sts[0].pc[n]) for s in sts):
            n += 1
        return n

    def merge_states(self, sts):
        """join states (same frame) with ite over their distinguishing conditions"""
        n = self.common_prefix(sts)
        conds = []
        for s in sts:
            ex = s.pc[n:]
            if any(hasq(c) for c in ex):
                return None
            conds.append(z3.And(*ex) if len(ex) > 1 else (ex[0] if ex else TRUE))
        r = sts[0].copy()
        r.pc = r.pc[:n]
        r.add(z3.simplify(z3.Or(*conds)))
        cells = set(r.mem)
        for s in sts[1:]:
            cells &= set(s.mem)
        try:
            for c in cells:
                vals = [s.mem[c] for s in sts]
                if all(v is vals[0] for v in vals):
                    continue
                val = vals[-1]
                for v, cd in list(zip(vals, conds))[-2::-1]:
                    val = self.vite(cd, v, val)
                r.mem[c] = val
        except Unsupported:
            return None
        env = {}
        for k, b in sts[0].env[-1].items():
            ok = True
            for s in sts[1:]:
                b2 = s.env[-1].get(k)
                if b2 is b:
                    continue
                if isinstance(b, LV) and isinstance(b2, LV) and b.cell == b2.cell and same_path(b.path, b2.path):
                    continue
                ok = False
            if ok:
                env[k] = b
        r.env[-1] = env
        return r

    def vite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, PtrV) and isinstance(b, PtrV):
            if a.lv is None and b.lv is None:
                return PtrV(z3.If(c, a.null, b.null), None)
            if a.lv is None or b.lv is None:
                return PtrV(z3.If(c, a.null, b.null), a.lv or b.lv)
            if a.lv.cell == b.lv.cell and same_path(a.lv.path, b.lv.path):
                return PtrV(z3.If(c, a.null, b.null), a.lv)
            raise Unsupported("merge pointers")
        if type(a) is not type(b) and not (isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef)):
            raise Unsupported("merge kinds")
        return ite(c, a, b)

    def s_expr(self, st, s):
        return [("n", s2, None) for s2, v in self.ev(st, s["x"])]

    def s_decl(self, st, s):
        cur = [st]
        for v in s["v"]:
            nxt = []
            for c in cur:
                nxt += self.declvar(c, v)
            cur = nxt
        return [("n", c, None) for c in cur]

    def declvar(self, st, v):
        t = v["t"]
        init = v.get("init")
        if v.get("bindings"):
            return self.declbind(st, v)
        if v.get("static"):
            raise Unsupported("static local")
        if init is None:
            if t.k == "rec":
                val = self.default(st, t)
            elif t.k == "arr":
                val = VecV(t.t, iv(t.num), fresh(self.W, v["n"] + "[]", t.t, (I,)))
            elif t.k == "ptr":
                val = PtrV(TRUE, None)
            else:
                val = fresh(self.W, "uninit:" + v["n"], t)
            st.env[-1][v["id"]] = self.cell(st, t, val)
            return [st]
        outs = []
        for s, x in self.ev(st, init):
            if t.k == "ref":
                s.env[-1][v["id"]] = x if isinstance(x, LV) else self.cell(s, t.t, x)
            else:
                s.env[-1][v["id"]] = self.cell(s, t, self.ld(s, x))
            outs.append(s)
        return outs

    def declbind(self, st, v):
        outs = []
        for s, x in self.ev(st, v["init"]):
            lv = x if isinstance(x, LV) and v["t"].k == "ref" else self.cell(s, v["t"].deref(), self.ld(s, x))
            self.bindnames(s, lv, v["bindings"])
            outs.append(s)
        return outs

    def bindnames(self, s, lv, bindings):
        val = self.rd(s, lv)
        if isinstance(val, TupleV):
            for i, b in enumerate(bindings):
                x = val.els[i]
                s.env[-1][b["id"]] = x if isinstance(x, LV) else lv.f(str(i))
            return
        if not isinstance(val, StructV):
            raise Unsupported("structured binding of %r" % type(val))
        t = val.ty
        if t.tn == "std::pair":
            names = ["first", "second"]
        elif t.tn == "std::tuple":
            names = [str(i) for i in range(len(bindings))]
        else:
            names = list(self.prog.fields(t))
        for b, n in zip(bindings, names):
            s.env[-1][b["id"]] = lv.f(n)

    def s_if(self, st, s):
        out = []
        cur = [st]
        if s.get("init") is not None:
            cur = [s2 for k, s2, v in self.exec(st, s["init"])]
        if s.get("cv") is not None:
            cur = [s3 for s2 in cur for k, s3, v in self.exec(s2, {"s": "decl", "v": [s["cv"]]})]
        for c in cur:
            for s2, b in self.cond(c, s["c"]):
                for s3, t in self.branch(s2, b):
                    if t:
                        out += self.exec(s3, s.get("th"))
                    elif s.get("el") is not None:
                        out += self.exec(s3, s["el"])
                    else:
                        out.append(("n", s3, None))
        n = [x for x in out if x[0] == "n"]
        if len(n) > 12:
            m = self.reduce([x[1] for x in n])
            out = [x for x in out if x[0] != "n"] + [("n", y, None) for y in m]
        return out

    def s_return(self, st, s):
        x = s.get("x")
        if x is None:
            return [("r", st, None)]
        rt = None
        outs = []
        for s2, v in self.ev(st, x):
            if isinstance(v, LV) and not x.get("lv"):
                v = self.ld(s2, v)
            if isinstance(v, LV) and not self.ret_is_ref():
                v = self.ld(s2, v)
            outs.append(("r", s2, v))
        return outs

    def ret_is_ref(self):
        if not self.inline_stack:
            return True
        fn = self.prog.fn(self.inline_stack[-1])
        return fn is None or fn["ret"] is None or fn["ret"].k == "ref"

    def s_break(self, st, s):
        return [("b", st, None)]

    def s_continue(self, st, s):
        return [("c", st, None)]

    def s_try(self, st, s):
        self.sinks.append([])
        nenv, nthis = len(st.env), len(st.this)
        try:
            out = self.exec(st, s["b"])
        finally:
            snk = self.sinks.pop()
        if snk:
            hs = s["h"]
            for s2, code in snk:
                s2.env = s2.env[:nenv]; s2.this = s2.this[:nthis]
                handled = False
                for h in hs:
                    ht = h.get("t") or (h.get("var") or {}).get("t")
                    if ht is None or self.catches(ht, code):
                        hv = h.get("var")
                        if hv is not None and hv.get("id") is not None:
                            s2.env[-1][hv["id"]] = self.cell(s2, ht, PyV("exception", code))
                        for r in self.exec(s2, h["b"]):
                            out.append(r)
                        handled = True
                        break
                if not handled:
                    self.sinks[-1].append((s2, code))
        return out

    def catches(self, t, code):
        t = t.deref()
        if t.n.endswith("AmzException") or t.n in ("std::exception", "std::runtime_error"):
            return True
        return code == t.p

    def s_switch(self, st, s):
        out = []
        body = s["b"]
        items = body["b"] if body["s"] == "block" else [body]
        # flatten case labels
        flat = []

        def add(x):
            if x["s"] in ("case", "default"):
                flat.append((x["s"], x.get("v")))
                inner = x.get("b")
                if inner is not None:
                    add(inner)
            else:
                flat.append(("stmt", x))
        for x in items:
            add(x)
        for s2, v in self.rv(st, s["c"]):
            labels = [(i, f[1]) for i, f in enumerate(flat) if f[0] == "case"]
            dflt = [i for i, f in enumerate(flat) if f[0] == "default"]
            cur = s2
            entries = []
            alive = True
            for i, lab in labels:
                lv_ = lab if isinstance(lab, int) else None
                if lv_ is None:
                    r = self.rv(cur, lab)
                    lv_ = r[0][1]
                else:
                    lv_ = iv(lv_)
                br = self.branch(cur, v == lv_)
                alive = False
                for s3, t in br:
                    if t:
                        entries.append((i, s3))
                    else:
                        cur = s3
                        alive = True
                if not alive:
                    break
            if alive:
                entries.append((dflt[0] if dflt else len(flat), cur))
            for i, s3 in entries:
                states = [s3]
                for kind, x in flat[i:]:
                    if kind != "stmt":
                        continue
                    nxt = []
                    for s4 in states:
                        for k, s5, val in self.exec(s4, x):
                            if k == "n":
                                nxt.append(s5)
                            elif k == "b":
                                out.append(("n", s5, None))
                            else:
                                out.append((k, s5, val))
                    states = nxt
                out += [("n", s4, None) for s4 in states]
        return out

    # ------------------------------------------------------------ loops
    def s_for(self, st, s):
        cur = [st]
        if s.get("init") is not None:
            cur = [s2 for k, s2, v in self.exec(st, s["init"])]
        out = []
        for c in cur:
            out += self.loop(c, LoopSpec(
                (lambda z: self.cond(z, s["c"])) if s.get("c") is not None else (lambda z: [(z, TRUE)]),
                lambda z: self.exec(z, s["b"]),
                (lambda z: [a for a, _ in self.ev(z, s["inc"])]) if s.get("inc") is not None else (lambda z: [z]),
                key=id(s)))
        return out

    def s_while(self, st, s):
        return self.loop(st, LoopSpec(lambda z: self.cond(z, s["c"]), lambda z: self.exec(z, s["b"]), lambda z: [z],
                                      key=id(s)))

    def s_do(self, st, s):
        # body; while(c) body
        out = []
        for k, s2, v in self.exec(st, s["b"]):
            if k in ("n", "c"):
                out += self.loop(s2, LoopSpec(lambda z: self.cond(z, s["c"]), lambda z: self.exec(z, s["b"]),
                                              lambda z: [z], key=id(s)))
            elif k == "b":
                out.append(("n", s2, None))
            else:
                out.append((k, s2, v))
        return out

    def s_rfor(self, st, s):
        from . import stdlib
        out = []
        for s2, r in self.ev(st, s["r"]):
            lv = r if isinstance(r, LV) else self.cell(s2, s["r"]["t"].deref(), r)
            val = self.rd(s2, lv)
            var = s["var"]
            if isinstance(val, VecV):
                it = self.cell(s2, None, iv(0))
                self.cty[it.cell] = INTTY
                s2.env[-1] = dict(s2.env[-1])

                def cond(z, it=it, lv=lv):
                    return [(z, z3.simplify(self.rd(z, it) < self.rd(z, lv).n))]

                def body(z, it=it, lv=lv):
                    i = self.rd(z, it)
                    x = lv.i(i, val.elty)
                    self.bindloopvar(z, var, x)
                    return self.exec(z, s["b"])

                def inc(z, it=it):
                    self.wr(z, it, z3.simplify(self.rd(z, it) + 1))
                    return [z]
                out += self.loop(s2, LoopSpec(cond, body, inc, key=id(s)))
            elif isinstance(val, MapV):
                it = self.cell(s2, None, iv(0))
                self.cty[it.cell] = INTTY
                enum, pos = stdlib.map_enum(self, s2, lv)

                def cond(z, it=it, lv=lv):
                    return [(z, z3.simplify(self.rd(z, it) < val.n))]

                def body(z, it=it, lv=lv):
                    i = self.rd(z, it)
                    k = z3.Select(enum, i)
                    x = stdlib.map_entry(self, z, lv, k, val)
                    self.bindloopvar(z, var, x)
                    return self.exec(z, s["b"])

                def inc(z, it=it):
                    self.wr(z, it, z3.simplify(self.rd(z, it) + 1))
                    return [z]
                out += self.loop(s2, LoopSpec(cond, body, inc, key=id(s)))
            else:
                raise Unsupported("range-for over %r" % type(val))
        return out

    def bindloopvar(self, z, var, x):
        if var.get("bindings"):
            if isinstance(x, TupleV):
                for b, el in zip(var["bindings"], x.els):
                    z.env[-1][b["id"]] = el if isinstance(el, LV) else self.cell(z, None, el)
                return
            lv = x if var["t"].k == "ref" else self.cell(z, var["t"], self.ld(z, x))
            self.bindnames(z, lv, var["bindings"])
            return
        if var["t"].k == "ref":
            if isinstance(x, TupleV):
                x = self.cell(z, var["t"].t, x)
            z.env[-1][var["id"]] = x if isinstance(x, LV) else self.cell(z, var["t"].t, x)
        else:
            z.env[-1][var["id"]] = self.cell(z, var["t"], self.ld(z, x))

    def loop(self, st, spec):
        from .loops import run_loop
        return run_loop(self, st, spec)


def st_peek(s, lv):
    return s.mem.get(lv.cell) if not lv.path else None


class LoopSpec:
    def __init__(self, cond, body, inc, key=None):
        self.cond = cond; self.body = body; self.inc = inc; self.key = key


INTTY = Ty()
INTTY.k = "int"; INTTY.w = 64; INTTY.s = True; INTTY.p = "long"
