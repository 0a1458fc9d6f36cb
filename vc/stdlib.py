"""Models (contracts) of the standard library functions the code under contract calls."""
import z3
from .values import *
from .ir import Unsupported
from .engine import whole, nq, TRUE, FALSE, LoopSpec, INTTY, Dead
from .fl import *
from . import fl

MODELS = {}
CONSTRUCT = {}


def std(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def con(*names):
    def d(f):
        for n in names:
            CONSTRUCT[n] = f
        return f
    return d


def generic(q):
    """iterator classes with many spellings"""
    last = q.split("::")[-1]
    if q.startswith("__gnu_cxx::__normal_iterator::") or q.startswith("std::_Rb_tree") or \
            q.startswith("std::reverse_iterator::") or q.startswith("std::_Bit_iterator") or \
            q.startswith("std::_Bit_const_iterator") or q.startswith("std::move_iterator") or q.startswith("std::__detail"):
        return ITER.get(last)
    if q.startswith("__gnu_cxx::operator"):
        return ITERF.get(last)
    return None


def it_cmp(op):
    def f(ex, st, e, args, *r):
        a, b = (args if not r else (args, r[0][0]))
        a, b = ex.ld(st, a), ex.ld(st, b)
        return itercmp(ex, st, op, a, b)
    return f


def itercmp(ex, st, op, a, b):
    if isinstance(a, MapIterV):
        if op == "==":
            return z3.simplify(a.pos == b.pos)
        if op == "!=":
            return z3.simplify(a.pos != b.pos)
        raise Unsupported("map iterator " + op)
    return ex.iterop(st, op, a, b)


def m_deref(ex, st, e, obj, args):
    v = ex.ld(st, obj)
    if isinstance(v, IterV):
        return ex.iterlv(st, v)
    if isinstance(v, MapIterV):
        return mapiterlv(ex, st, v)
    return ex.deref(st, obj)


def m_arrow(ex, st, e, obj, args):
    v = ex.ld(st, obj)
    if isinstance(v, IterV):
        return PtrV(FALSE, ex.iterlv(st, v))
    if isinstance(v, MapIterV):
        return PtrV(FALSE, mkLV(ex, st, mapiterlv(ex, st, v)))
    return PtrV(FALSE, ex.deref(st, obj))


def mkLV(ex, st, x):
    return x if isinstance(x, LV) else ex.cell(st, None, x)


def advance(ex, st, v, d):
    if isinstance(v, MapIterV):
        return MapIterV(v.lv, None, None, z3.simplify(v.pos + d))
    return ex.iterop(st, "+", v, iv(d) if isinstance(d, int) else d)


def m_inc(d):
    def f(ex, st, e, obj, args):
        v = ex.ld(st, obj)
        n = advance(ex, st, v, d)
        ex.wr(st, obj, n)
        return v if args else obj
    return f


def m_plus(sign):
    def f(ex, st, e, obj, args):
        a, b = ex.ld(st, obj), ex.ld(st, args[0])
        return ex.iterop(st, "+" if sign > 0 else "-", a, b)
    return f


def m_pluseq(sign):
    def f(ex, st, e, obj, args):
        a, b = ex.ld(st, obj), ex.ld(st, args[0])
        ex.wr(st, obj, ex.iterop(st, "+" if sign > 0 else "-", a, b))
        return obj
    return f


def m_index(ex, st, e, obj, args):
    return ex.iterlv(st, ex.ld(st, obj), ex.ld(st, args[0]))


def m_assign(ex, st, e, obj, args):
    ex.wr(st, obj, ex.ld(st, args[0]))
    return obj


def m_base(ex, st, e, obj, args):
    v = ex.ld(st, obj)
    return IterV(v.lv, v.idx, False, v.elty)


ITER = {"operator*": m_deref, "operator->": m_arrow, "operator++": m_inc(1), "operator--": m_inc(-1),
        "operator+": m_plus(1), "operator-": m_plus(-1), "operator+=": m_pluseq(1), "operator-=": m_pluseq(-1),
        "operator[]": m_index, "operator=": m_assign, "base": m_base,
        "operator==": lambda ex, st, e, o, a: itercmp(ex, st, "==", ex.ld(st, o), ex.ld(st, a[0])),
        "operator!=": lambda ex, st, e, o, a: itercmp(ex, st, "!=", ex.ld(st, o), ex.ld(st, a[0]))}
ITERF = {"operator==": it_cmp("=="), "operator!=": it_cmp("!="), "operator<": it_cmp("<"), "operator>": it_cmp(">"),
         "operator<=": it_cmp("<="), "operator>=": it_cmp(">="), "operator-": it_cmp("-"),
         "operator+": lambda ex, st, e, a: ex.iterop(st, "+", ex.ld(st, a[1]), ex.ld(st, a[0]))}


def m_copyit(ex, st, e, t, vs):
    if not vs:
        return IterV(LV(0), iv(0))
    v = ex.ld(st, vs[0])
    return v


def m_revit(ex, st, e, t, vs):
    v = ex.ld(st, vs[0])
    return IterV(v.lv, v.idx, True, v.elty)


for _n in ("__gnu_cxx::__normal_iterator", "std::_Rb_tree_const_iterator", "std::_Rb_tree_iterator",
           "std::_Bit_const_iterator", "std::_Bit_iterator"):
    CONSTRUCT[_n] = m_copyit
CONSTRUCT["std::reverse_iterator"] = lambda ex, st, e, t, vs: (
    (lambda v: v if v.rev else IterV(v.lv, v.idx, True, v.elty))(ex.ld(st, vs[0])))


# eq/ne etc on std objects
def valeq(ex, st, a, b):
    if isinstance(a, IterV):
        return ex.iterop(st, "==", a, b)
    if isinstance(a, MapIterV):
        return z3.simplify(a.pos == b.pos)
    if isinstance(a, (PtrV, SPtrV)) or isinstance(b, (PtrV, SPtrV)):
        return ex.ptreq(a, b)
    if isinstance(a, Fl):
        return fl.eq(a, b)
    if isinstance(a, z3.ExprRef):
        return a == b
    if isinstance(a, VecV):
        k = z3.Const(uniq("eqk"), I)
        return z3.And(a.n == b.n, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < a.n),
                                                           valeq(ex, st, sel(a.el, k), sel(b.el, k)))))
    if isinstance(a, StructV):
        t = a.ty
        names = ["first", "second"] if t.tn == "std::pair" else [str(i) for i in range(len(t.args))]
        if t.tn in ("std::pair", "std::tuple"):
            return z3.And(*[valeq(ex, st, a.get(n), b.get(n)) for n in names])
    raise Unsupported("equality of %r" % type(a))


@std("std::operator==")
def op_eq(ex, st, e, a):
    return z3.simplify(valeq(ex, st, ex.ld(st, a[0]), ex.ld(st, a[1]))) if True else None


@std("std::operator!=")
def op_ne(ex, st, e, a):
    return z3.simplify(z3.Not(valeq(ex, st, ex.ld(st, a[0]), ex.ld(st, a[1]))))


def strless(ex, a, b):
    f = ex.W.uf("strrank", Str, R)
    return f(a) < f(b)


@std("std::operator<")
def op_lt(ex, st, e, a):
    x, y = ex.ld(st, a[0]), ex.ld(st, a[1])
    return vallt(ex, st, x, y)


@std("std::operator>")
def op_gt(ex, st, e, a):
    x, y = ex.ld(st, a[0]), ex.ld(st, a[1])
    return vallt(ex, st, y, x)


def vallt(ex, st, x, y):
    if isinstance(x, Fl):
        return fl.lt(x, y)
    if isinstance(x, IterV):
        return ex.iterop(st, "<", x, y)
    if isinstance(x, z3.ExprRef):
        if x.sort() == Str:
            return strless(ex, x, y)
        return x < y
    if isinstance(x, StructV) and x.ty.tn in ("std::pair", "std::tuple"):
        names = ["first", "second"] if x.ty.tn == "std::pair" else [str(i) for i in range(len(x.ty.args))]
        r = FALSE
        for n in reversed(names):
            a, b = x.get(n), y.get(n)
            r = z3.Or(vallt(ex, st, a, b), z3.And(z3.Not(vallt(ex, st, b, a)), r))
        return z3.simplify(r)
    if isinstance(x, StructV):
        return ex.tobool(user_binop(ex, st, "operator<", x, y))
    raise Unsupported("< on %r" % type(x))


def user_binop(ex, st, op, x, y):
    """value of a user operator (member, or free taking two arguments) without side effects"""
    from .engine import nq
    cands = []
    for q, ks in ex.prog.byname.items():
        if not q.endswith(op):
            continue
        for k in ks:
            f = ex.prog.fn(k)
            if f.get("body") is None or not q.endswith("::" + op):
                continue
            if f.get("cls") is not None and f["cls"].n == x.ty.n and len(f["params"]) == 1:
                cands.append((f, True))
            elif len(f["params"]) == 2 and f["params"][0]["t"].deref().n == x.ty.n:
                cands.append((f, False))
    if not cands:
        raise Unsupported("%s on %s" % (op, x.ty.p))
    f, member = cands[0]

    def run(ex_, s, args):
        if member:
            lv = ex.cell(s, x.ty, args[0])
            return ex.run_fn(s, f, [args[1]], lv)
        return ex.run_fn(s, f, args, None)
    return ex.pure_call(st, PyV("fn", run), [x, y])


def sconcat(ex, a, b):
    return ex.W.uf("strcat", Str, Str, Str)(a, b)


@std("std::operator+")
def op_plus(ex, st, e, a):
    x, y = ex.ld(st, a[0]), ex.ld(st, a[1])
    if isinstance(x, IterV) or isinstance(y, IterV):
        return ex.iterop(st, "+", x, y) if isinstance(x, IterV) else ex.iterop(st, "+", y, x)
    if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
        if x.sort() == I:
            x = z3.Const(uniq("chr"), Str)
        if y.sort() == I:
            y = z3.Const(uniq("chr"), Str)
        return sconcat(ex, x, y)
    raise Unsupported("std::operator+")


@std("std::operator-")
def op_minus(ex, st, e, a):
    return ex.iterop(st, "-", ex.ld(st, a[0]), ex.ld(st, a[1]))


@std("std::operator<<", "std::basic_ostream::operator<<")
def op_out(ex, st, e, a, *r):
    return PyV("ignored")


@std("std::basic_string::append", "std::basic_string::operator+=")
def str_app(ex, st, e, o, a):
    y = ex.ld(st, a[0])
    if not (isinstance(y, z3.ExprRef) and y.sort() == Str):
        y = z3.Const(uniq("chr"), Str)
    ex.wr(st, o, sconcat(ex, ex.ld(st, o), y))
    return o


@std("std::basic_string::operator=", "std::basic_string::assign")
def str_asg(ex, st, e, o, a):
    v = ex.ld(st, a[0])
    if isinstance(v, PyV):
        v = z3.Const(uniq("str"), Str)
    ex.wr(st, o, v)
    return o


@std("std::basic_string::c_str", "std::basic_string::data")
def str_id(ex, st, e, o, a):
    return ex.ld(st, o)


def strlen(ex, v):
    f = ex.W.uf("strlen", Str, I)
    for s, c in ex.W.strlits.items():
        if c.eq(v):
            return iv(len(s))
    t = f(v)
    ex.W.fact(z3.And(t >= 0, t < 2 ** 31, (t == 0) == (v == ex.W.strlit(""))), None)
    return t


@std("std::basic_string::size", "std::basic_string::length")
def str_size(ex, st, e, o, a):
    return strlen(ex, ex.ld(st, o))


@std("std::basic_string::empty")
def str_empty(ex, st, e, o, a):
    return z3.simplify(ex.ld(st, o) == ex.W.strlit(""))


@std("std::basic_string::clear")
def str_clear(ex, st, e, o, a):
    ex.wr(st, o, ex.W.strlit(""))
    return None


@std("std::basic_string::find")
def str_find(ex, st, e, o, a):
    y = ex.ld(st, a[0])
    if not (isinstance(y, z3.ExprRef) and y.sort() == Str) or len(a) > 1 and not isnum(ex.ld(st, a[1])):
        raise Unsupported("string find")
    f = ex.W.uf("strfind", Str, Str, I)
    t = f(ex.ld(st, o), y)
    ex.W.fact(z3.And(t >= 0, t <= 2 ** 64 - 1))
    return t


@std("std::basic_string::compare")
def str_cmp(ex, st, e, o, a):
    r = z3.Const(uniq("cmp"), I)
    st.add((r == 0) == (ex.ld(st, o) == ex.ld(st, a[0])))
    return r


@con("std::basic_string")
def str_con(ex, st, e, t, vs):
    if not vs:
        return ex.W.strlit("")
    v = ex.ld(st, vs[0])
    if isinstance(v, z3.ExprRef) and v.sort() == Str:
        return v
    return z3.Const(uniq("str"), Str)


@std("std::to_string")
def to_string(ex, st, e, a):
    v = ex.ld(st, a[0])
    if isinstance(v, Fl):
        return ex.W.uf("fstr", R, Str)(v.r)
    f = ex.W.uf("istr", I, Str)
    g = ex.W.uf("istr_inv", Str, I)
    t = f(v)
    ex.W.fact(g(t) == v)
    return t


# ---------------------------------------------------------------- vectors
def vec(ex, st, o):
    v = ex.ld(st, o)
    if not isinstance(v, VecV):
        raise Unsupported("vector operation on %r" % type(v))
    return v


V = ("std::vector::", "std::deque::", "std::list::", "std::initializer_list::", "std::array::")


def vstd(*names):
    def d(f):
        for n in names:
            for p in V:
                MODELS[p + n] = f
        return f
    return d


@vstd("operator[]")
def v_idx(ex, st, e, o, a):
    i = ex.ld(st, a[0])
    o = mkLV(ex, st, o)
    v = vec(ex, st, o)
    ex.ob(st, "vector index in bounds", z3.And(i >= 0, i < v.n))
    return o.i(i, v.elty)


@vstd("at")
def v_at(ex, st, e, o, a):
    i = ex.ld(st, a[0])
    o = mkLV(ex, st, o)
    v = vec(ex, st, o)
    outs = []
    for s, t in ex.branch(st, z3.And(i >= 0, i < v.n)):
        if t:
            outs.append((s, o.i(i, v.elty)))
        else:
            ex.throw(s, "std::out_of_range")
    return outs


@vstd("size")
def v_size(ex, st, e, o, a):
    return vec(ex, st, o).n


@vstd("empty")
def v_empty(ex, st, e, o, a):
    return z3.simplify(vec(ex, st, o).n == 0)


@vstd("begin", "cbegin", "data")
def v_begin(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    return IterV(o, iv(0), False, vec(ex, st, o).elty)


@vstd("end", "cend")
def v_end(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    v = vec(ex, st, o)
    return IterV(o, v.n, False, v.elty)


@vstd("rbegin", "crbegin")
def v_rbegin(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    v = vec(ex, st, o)
    return IterV(o, v.n, True, v.elty)


@vstd("rend", "crend")
def v_rend(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    return IterV(o, iv(0), True, vec(ex, st, o).elty)


@std("std::begin", "std::cbegin")
def f_begin(ex, st, e, a):
    return v_begin(ex, st, e, a[0], [])


@std("std::end", "std::cend")
def f_end(ex, st, e, a):
    return v_end(ex, st, e, a[0], [])


@vstd("front")
def v_front(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    v = vec(ex, st, o)
    ex.ob(st, "front of non-empty vector", v.n > 0)
    return o.i(iv(0), v.elty)


@vstd("back")
def v_back(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    v = vec(ex, st, o)
    ex.ob(st, "back of non-empty vector", v.n > 0)
    return o.i(z3.simplify(v.n - 1), v.elty)


def conv(ex, st, x, elty):
    """implicit conversion of an argument to the element type"""
    if elty.k == "float" and not isinstance(x, Fl):
        return ex.tofl(x)
    if elty.k == "int" and isinstance(x, z3.ExprRef) and x.sort() == B:
        return z3.If(x, iv(1), iv(0))
    if isinstance(x, PtrV) and elty.k == "rec" and elty.tn in SPTR or isinstance(x, PtrV) and elty.k == "ptr":
        if x.lv is None:
            return SPtrV(elty, x.null, None, lambda: fresh(ex.W, "null->", elty.args[0] if elty.k == "rec" else elty.t))
        return SPtrV(elty, x.null, ex.rd(st, x.lv))
    return x


@vstd("push_back")
def v_push(ex, st, e, o, a):
    v = vec(ex, st, o)
    x = conv(ex, st, ex.ld(st, a[0]), v.elty)
    ex.wr(st, o, VecV(v.elty, z3.simplify(v.n + 1), sto(v.el, v.n, x)))
    return None


@vstd("emplace_back")
def v_emplace(ex, st, e, o, a):
    v = vec(ex, st, o)
    outs = []
    for s, x in make_obj(ex, st, e, v.elty, a):
        v = vec(ex, s, o)
        ex.wr(s, o, VecV(v.elty, z3.simplify(v.n + 1), sto(v.el, v.n, conv(ex, s, x, v.elty))))
        outs.append((s, o.i(v.n, v.elty)))
    return outs


def make_obj(ex, st, e, ty, args):
    """construct a ty from already evaluated constructor arguments"""
    vals = [ex.ld(st, x) for x in args]
    if ty.k in ("int", "enum", "bool", "float"):
        return [(st, conv(ex, st, vals[0], ty) if vals else ex.default(st, ty))]
    if ty.k == "rec":
        if ty.tn == "std::pair" and len(vals) == 2:
            return [(st, mkpair(ty, vals[0], vals[1], ex, st))]
        if len(vals) == 1 and isinstance(vals[0], StructV) and vals[0].ty.n == ty.n:
            return [(st, vals[0])]
        if len(vals) == 1 and is_str(ty) and isinstance(vals[0], z3.ExprRef):
            return [(st, vals[0])]
        m = CONSTRUCT.get(ty.tn)
        if m is not None:
            r = m(ex, st, e, ty, args)
            return r if isinstance(r, list) else [(st, r)]
        if len(vals) == 1 and isinstance(vals[0], (VecV, MapV)):
            return [(st, vals[0])]
        # user type: pick the constructor by arity
        cands = []
        short = ty.n.split("::")[-1].split("<")[0]
        for q, ks in ex.prog.byname.items():
            if nq(q) == nq(ty.n) + "::" + short:
                for k in ks:
                    f = ex.prog.fn(k)
                    if f.get("body") is not None and f["cls"] is not None and f["cls"].n == ty.n:
                        npar = len(f["params"])
                        if npar == len(args):
                            cands.append(f)
        cands = [f for f in cands if all(argfits(ex, p["t"], v) for p, v in zip(f["params"], vals))]
        if len(cands) == 1:
            f = cands[0]
            tgt = ex.cell(st, ty, ex.defstruct_uninit(st, ty))
            if f["key"] in ex.contracts:
                return [(s, ex.rd(s, tgt)) for s, _ in ex.call_contract(st, ex.contracts[f["key"]], tgt, list(args), e)]
            return [(s, ex.rd(s, tgt)) for s, _ in ex.call_fn(st, f, list(args), tgt, e)]
        if not args:
            return [(st, ex.default(st, ty))]
        fs = ex.prog.fields(ty)
        if fs is not None and not cands and len(fs) >= len(vals):
            return [(st, ex.mkinit(st, ty, vals))]
    raise Unsupported("construction of %s from %d arguments" % (ty.p, len(args)))


def argfits(ex, t, v):
    t = t.deref()
    if isinstance(v, StructV):
        return t.k == "rec" and (t.n == v.ty.n or derives(ex, v.ty, t))
    if isinstance(v, VecV):
        return t.k == "rec" and t.tn in VECS
    if isinstance(v, Fl):
        return t.k in ("float",)
    if isinstance(v, z3.ExprRef):
        if v.sort() == Str:
            return is_str(t)
        if v.sort() == B:
            return t.k in ("bool", "int")
        return t.k in ("int", "enum", "float", "bool")
    return True


def derives(ex, t, b):
    if t.n == b.n:
        return True
    r = ex.prog.records.get(t.n)
    return bool(r) and any(derives(ex, x, b) for x in r.get("bases", []))


@vstd("pop_back")
def v_pop(ex, st, e, o, a):
    v = vec(ex, st, o)
    ex.ob(st, "pop_back of non-empty vector", v.n > 0)
    ex.wr(st, o, VecV(v.elty, z3.simplify(v.n - 1), v.el))
    return None


@vstd("clear")
def v_clear(ex, st, e, o, a):
    v = vec(ex, st, o)
    ex.wr(st, o, VecV(v.elty, iv(0), v.el))
    return None


@vstd("reserve", "shrink_to_fit")
def v_reserve(ex, st, e, o, a):
    return None


@std("std::vector::capacity")
def v_cap(ex, st, e, o, a):
    return z3.Const(uniq("cap"), I)


@vstd("resize")
def v_resize(ex, st, e, o, a):
    v = vec(ex, st, o)
    n = ex.ld(st, a[0])
    x = conv(ex, st, ex.ld(st, a[1]), v.elty) if len(a) > 1 else ex.default(st, v.elty)
    k = z3.Const("rk!", I)
    if isnum(v.n) and v.n.as_long() == 0:
        el = ex.lift(x)
    else:
        el = abstract(ite(z3.And(k >= 0, k < v.n), sel(v.el, k), x), k)
    ex.wr(st, o, VecV(v.elty, n, el))
    return None


def seq_of(ex, st, b, e_):
    """(fn k->value , count) of an iterator range"""
    b, e_ = ex.ld(st, b), ex.ld(st, e_)
    if not isinstance(b, IterV):
        raise Unsupported("iterator range of %r" % type(b))
    v = ex.rd(st, b.lv)
    if b.rev:
        n = z3.simplify(b.idx - e_.idx)
        return (lambda k: sel(v.el, z3.simplify(b.idx - 1 - k))), n, v
    n = z3.simplify(e_.idx - b.idx)
    return (lambda k: sel(v.el, z3.simplify(b.idx + k))), n, v


def rangeob(ex, st, b, e_, what):
    b, e_ = ex.ld(st, b), ex.ld(st, e_)
    if isinstance(b, IterV) and isinstance(e_, IterV):
        v = ex.rd(st, b.lv)
        lo, hi = (b.idx, e_.idx) if not b.rev else (e_.idx, b.idx)
        ex.ob(st, what + ": valid iterator range", z3.And(lo >= 0, lo <= hi, hi <= v.n))


@vstd("assign")
def v_assign(ex, st, e, o, a):
    v = vec(ex, st, o)
    x0 = ex.ld(st, a[0])
    if isinstance(x0, IterV):
        rangeob(ex, st, a[0], a[1], "assign")
        f, n, src = seq_of(ex, st, a[0], a[1])
        k = z3.Const("rk!", I)
        ex.wr(st, o, VecV(v.elty, n, abstract(f(k), k)))
    elif isinstance(x0, VecV):
        ex.wr(st, o, x0)
    else:
        x = conv(ex, st, ex.ld(st, a[1]), v.elty)
        ex.wr(st, o, VecV(v.elty, x0, ex.lift(x)))
    return None


@vstd("operator=")
def v_opasg(ex, st, e, o, a):
    ex.wr(st, o, ex.ld(st, a[0]))
    return o


@vstd("swap")
def v_swap(ex, st, e, o, a):
    x, y = ex.ld(st, o), ex.ld(st, a[0])
    ex.wr(st, o, y)
    ex.wr(st, a[0], x)
    return None


@vstd("fill")
def v_fill(ex, st, e, o, a):
    v = vec(ex, st, o)
    ex.wr(st, o, VecV(v.elty, v.n, ex.lift(conv(ex, st, ex.ld(st, a[0]), v.elty))))
    return None


@con("std::vector", "std::deque", "std::list", "std::initializer_list", "std::array")
def v_con(ex, st, e, t, vs):
    elt = t.args[0]
    vs = [x for x in vs if not is_alloc(ex, st, x)]
    if t.tn == "std::array":
        return ex.default(st, t)
    if not vs:
        return ex.default(st, t)
    x0 = ex.ld(st, vs[0])
    if isinstance(x0, VecV):
        return VecV(elt, x0.n, x0.el)
    if isinstance(x0, IterV):
        rangeob(ex, st, vs[0], vs[1], "vector constructor")
        f, n, src = seq_of(ex, st, vs[0], vs[1])
        k = z3.Const("rk!", I)
        return VecV(elt, n, abstract(conv_el(ex, st, f(k), elt), k))
    if isinstance(x0, z3.ExprRef) and x0.sort() == I:
        if len(vs) > 1:
            x = conv(ex, st, ex.ld(st, vs[1]), elt)
            return VecV(elt, x0, ex.lift(x))
        return VecV(elt, x0, ex.lift(ex.default(st, elt)))
    raise Unsupported("vector constructor")


def conv_el(ex, st, x, elt):
    if elt.k == "float" and isinstance(x, z3.ExprRef):
        return Fl(z3.ToReal(x))
    return x


def is_alloc(ex, st, x):
    return isinstance(x, PyV) and x.kind == "alloc"


CONSTRUCT["std::allocator"] = lambda ex, st, e, t, vs: PyV("alloc")


@vstd("insert")
def v_insert(ex, st, e, o, a):
    v = vec(ex, st, o)
    p = ex.ld(st, a[0]).idx
    ex.ob(st, "insert position", z3.And(p >= 0, p <= v.n))
    k = z3.Const("rk!", I)
    if len(a) == 2:
        x = conv(ex, st, ex.ld(st, a[1]), v.elty)
        if isinstance(x, VecV) and not (v.elty.k == "rec" and v.elty.tn in VECS):
            n = x.n
            f = lambda q: sel(x.el, q)
        else:
            n = iv(1)
            f = lambda q: x
    else:
        x1 = ex.ld(st, a[1])
        if isinstance(x1, IterV):
            rangeob(ex, st, a[1], a[2], "insert")
            f, n, src = seq_of(ex, st, a[1], a[2])
        else:
            n = x1
            x = conv(ex, st, ex.ld(st, a[2]), v.elty)
            f = lambda q: x
    el = abstract(ite(k < p, sel(v.el, k), ite(k < z3.simplify(p + n), f(z3.simplify(k - p)), sel(v.el, z3.simplify(k - n)))), k)
    ex.wr(st, o, VecV(v.elty, z3.simplify(v.n + n), el))
    return IterV(o, p, False, v.elty)


@vstd("erase")
def v_erase(ex, st, e, o, a):
    v = vec(ex, st, o)
    p = ex.ld(st, a[0]).idx
    if len(a) == 1:
        q = z3.simplify(p + 1)
    else:
        q = ex.ld(st, a[1]).idx
    ex.ob(st, "erase range", z3.And(p >= 0, p <= q, q <= v.n))
    n = z3.simplify(q - p)
    k = z3.Const("rk!", I)
    if q.eq(v.n):
        el = v.el
    else:
        el = abstract(ite(k < p, sel(v.el, k), sel(v.el, z3.simplify(k + n))), k)
    ex.wr(st, o, VecV(v.elty, z3.simplify(v.n - n), el))
    return IterV(o, p, False, v.elty)


# vector<bool> references
@std("std::_Bit_reference::operator=")
def br_asg(ex, st, e, o, a):
    v = ex.ld(st, a[0])
    ex.wr(st, o, ex.tobool(v))
    return o


@std("std::_Bit_reference::operator bool")
def br_bool(ex, st, e, o, a):
    return ex.ld(st, o)


# ---------------------------------------------------------------- scalars
@std("std::move", "std::forward", "std::as_const", "std::ref", "std::cref")
def f_move(ex, st, e, a):
    if len(a) == 3:
        return a_copy(ex, st, e, a)
    return a[0]


@std("std::max")
def f_max(ex, st, e, a):
    return minmax(ex, st, e, a, True)


@std("std::min")
def f_min(ex, st, e, a):
    return minmax(ex, st, e, a, False)


def minmax(ex, st, e, a, mx):
    x = ex.ld(st, a[0])
    if len(a) == 1 and isinstance(x, VecV):
        if not isnum(x.n):
            raise Unsupported("max of symbolic list")
        r = sel(x.el, iv(0))
        for i in range(1, x.n.as_long()):
            y = sel(x.el, iv(i))
            r = pick(r, y, mx)
        return r
    y = ex.ld(st, a[1])
    if len(a) == 3:
        c = ex.pure_call(st, a[2], [x, y] if mx else [y, x])
        return ite(c, y, x)
    return pick(x, y, mx)


def pick(x, y, mx):
    """std::max returns x unless x<y ; std::min returns x unless y<x"""
    if isinstance(x, Fl):
        c = fl.lt(x, y) if mx else fl.lt(y, x)
        return ite(z3.simplify(c), y, x)
    c = x < y if mx else y < x
    return simp_ite(z3.simplify(c), y, x)


@std("std::swap")
def f_swap(ex, st, e, a):
    x, y = ex.ld(st, a[0]), ex.ld(st, a[1])
    ex.wr(st, a[0], y)
    ex.wr(st, a[1], x)
    return None


@std("std::abs", "abs", "fabs", "std::fabs", "labs")
def f_abs(ex, st, e, a):
    x = ex.ld(st, a[0])
    if isinstance(x, Fl):
        if x.k is None:
            if ex.qf(st, x.r >= 0):
                return x
        return fl.absv(x)
    return z3.simplify(z3.If(x >= 0, x, -x))


@std("exp", "std::exp", "expf")
def f_exp(ex, st, e, a):
    x = ex.tofl(ex.ld(st, a[0]))
    f = ex.W.uf("exp", R, R)
    if x.k is None:
        return Fl(f(z3.simplify(x.r)))
    k = x.k
    return mk(z3.If(k == NINF, z3.RealVal(0), f(x.r)), z3.If(k == NINF, iv(0), k))


@std("log", "std::log")
def f_log(ex, st, e, a):
    x = ex.tofl(ex.ld(st, a[0]))
    f = ex.W.uf("log", R, R)
    r = z3.simplify(x.r)
    if x.k is None and (ex.W.assume_log or ex.qf(st, r > 0)):
        if ex.W.assume_log and not ex.qf(st, r > 0):
            ex.ob(st, "log of a positive number", r > 0, kind="div")
        return Fl(f(r))
    k = kof(x)
    return mk(f(r), z3.If(k == 0, z3.If(r > 0, iv(0), z3.If(r == 0, iv(NINF), iv(NAN))), z3.If(k == NINF, iv(NAN), k)))


@std("log10", "std::log10")
def f_log10(ex, st, e, a):
    x = ex.tofl(ex.ld(st, a[0]))
    if x.k is None and ex.qf(st, x.r > 0):
        return Fl(ex.W.uf("log10", R, R)(x.r))
    raise Unsupported("log10")


@std("sqrt", "std::sqrt")
def f_sqrt(ex, st, e, a):
    x = ex.tofl(ex.ld(st, a[0]))
    f = ex.W.uf("sqrt", R, R)
    r = z3.simplify(x.r)
    if x.k is None and (ex.W.assume_div or ex.qf(st, r >= 0)):
        if ex.W.assume_div and not ex.qf(st, r >= 0):
            ex.ob(st, "square root of a non-negative number", r >= 0, kind="div")
        return Fl(f(r))
    k = kof(x)
    return mk(f(r), z3.If(k == 0, z3.If(r >= 0, iv(0), iv(NAN)), z3.If(k == PINF, iv(PINF), iv(NAN))))


@std("pow", "std::pow")
def f_pow(ex, st, e, a):
    x, y = ex.tofl(ex.ld(st, a[0])), ex.tofl(ex.ld(st, a[1]))
    if x.k is None and y.k is None:
        yr = z3.simplify(y.r)
        if z3.is_rational_value(yr) and yr.denominator_as_long() == 1:
            n = yr.numerator_as_long()
            if 0 <= n <= 6:
                r = z3.RealVal(1)
                for _ in range(n):
                    r = r * x.r
                return Fl(z3.simplify(r) if n else r)
        p = ex.W.uf("pow", R, R, R)(z3.simplify(x.r), yr)
        ex.W.fact(z3.Implies(x.r > 0, p > 0))
        return Fl(p)
    raise Unsupported("pow of non-finite")


def unary_uf(name):
    def f(ex, st, e, a):
        x = ex.tofl(ex.ld(st, a[0]))
        if x.k is not None:
            raise Unsupported(name + " of non-finite")
        return Fl(ex.W.uf(name, R, R)(z3.simplify(x.r)))
    return f


for _n in ("erf", "sin", "cos", "tan", "atan", "tanh", "sinh", "cosh"):
    MODELS[_n] = unary_uf(_n)
    MODELS["std::" + _n] = MODELS[_n]


@std("floor", "std::floor")
def f_floor(ex, st, e, a):
    x = ex.tofl(ex.ld(st, a[0]))
    if whole(x.r) is not None:
        return x
    return Fl(z3.ToReal(z3.ToInt(x.r)), x.k)


@std("ceil", "std::ceil")
def f_ceil(ex, st, e, a):
    x = ex.tofl(ex.ld(st, a[0]))
    if whole(x.r) is not None:
        return x
    return Fl(-z3.ToReal(z3.ToInt(-x.r)), x.k)


@std("round", "std::round")
def f_round(ex, st, e, a):
    x = ex.tofl(ex.ld(st, a[0]))
    if whole(x.r) is not None:
        return x
    h = z3.RealVal("1/2")
    return Fl(z3.If(x.r >= 0, z3.ToReal(z3.ToInt(x.r + h)), -z3.ToReal(z3.ToInt(-x.r + h))), x.k)


@std("std::isnan", "isnan", "__builtin_isnan")
def f_isnan(ex, st, e, a):
    return z3.simplify(fl.isnan(ex.tofl(ex.ld(st, a[0]))))


@std("std::isinf", "isinf")
def f_isinf(ex, st, e, a):
    return z3.simplify(fl.isinf(ex.tofl(ex.ld(st, a[0]))))


@std("std::isfinite", "isfinite")
def f_isfinite(ex, st, e, a):
    return z3.simplify(fin(ex.tofl(ex.ld(st, a[0]))))


@std("std::signbit")
def f_signbit(ex, st, e, a):
    x = ex.ld(st, a[0])
    return z3.simplify(fl.sgn_neg(x))


@std("std::numeric_limits::infinity")
def nl_inf(ex, st, e, a):
    return flc("inf")


@std("std::numeric_limits::quiet_NaN")
def nl_nan(ex, st, e, a):
    return flc("nan")


@std("std::numeric_limits::max")
def nl_max(ex, st, e, a):
    t = e["t"]
    if t.k == "float":
        return flc("1.7976931348623157e308") if t.w != 32 else flc("3.4028234663852886e38")
    return iv(2 ** (t.w - 1) - 1 if t.s else 2 ** t.w - 1)


@std("std::numeric_limits::min")
def nl_min(ex, st, e, a):
    t = e["t"]
    if t.k == "float":
        return flc("2.2250738585072014e-308")
    return iv(-2 ** (t.w - 1) if t.s else 0)


@std("std::numeric_limits::lowest")
def nl_lowest(ex, st, e, a):
    t = e["t"]
    if t.k == "float":
        return flc("-1.7976931348623157e308")
    return iv(-2 ** (t.w - 1) if t.s else 0)


@std("std::numeric_limits::epsilon")
def nl_eps(ex, st, e, a):
    return flc("2.220446049250313e-16")


@std("std::clamp", "boost::algorithm::clamp")
def f_clamp(ex, st, e, a):
    x, lo, hi = [ex.ld(st, y) for y in a[:3]]
    if isinstance(x, Fl):
        return ite(fl.lt(x, lo), lo, ite(fl.lt(hi, x), hi, x))
    return z3.If(x < lo, lo, z3.If(hi < x, hi, x))


# ---------------------------------------------------------------- algorithms
def bounds(ex, st, b, e_):
    b, e_ = ex.ld(st, b), ex.ld(st, e_)
    if not isinstance(b, IterV):
        raise Unsupported("algorithm on %r" % type(b))
    return b, e_, ex.rd(st, b.lv)


def elt(ex, v, it, k):
    """k-th element counted from iterator position as vector index"""
    return sel(v.el, k)


def cmpfn(ex, st, a, n, thr=None):
    """comparator as python function on values; thr collects the conditions under which it throws"""
    if len(a) > n:
        c = a[n]
        return lambda x, y: ex.tobool(ex.pure_call(st, c, [x, y], thr))
    return lambda x, y: vallt(ex, st, x, y)


def qk(name="k"):
    return z3.Const(uniq("q" + name), I)


def forall_range(lo, hi, body, pat=None):
    k = qk()
    b = body(k)
    return z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), b))


def sorted_fact(ex, v, lo, hi, less):
    i, j = qk("i"), qk("j")
    return z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i <= j, j < hi), z3.Not(less(sel(v.el, j), sel(v.el, i)))))


def bound_model(upper):
    def f(ex, st, e, a):
        rangeob(ex, st, a[0], a[1], "binary search")
        b, e_, v = bounds(ex, st, a[0], a[1])
        if b.rev:
            raise Unsupported("binary search on reverse iterators")
        x = ex.ld(st, a[2])
        c = cmpfn(ex, st, a, 3)
        r = z3.Const(uniq("bs"), I)
        st.add(z3.And(r >= b.idx, r <= e_.idx))
        # partitioned by the predicate
        p = (lambda y: z3.Not(c(x, y))) if upper else (lambda y: c(y, x))
        i, j = qk("i"), qk("j")
        ex.ob(st, "binary search: range is partitioned",
              z3.ForAll([i, j], z3.Implies(z3.And(b.idx <= i, i < j, j < e_.idx, p(sel(v.el, j))), p(sel(v.el, i)))),
              kind="pre", assume=False)
        st.add(forall_range(b.idx, r, lambda k: p(sel(v.el, k))))
        st.add(forall_range(r, e_.idx, lambda k: z3.Not(p(sel(v.el, k)))))
        # ground instances around the result
        st.add(z3.Implies(r > b.idx, p(sel(v.el, z3.simplify(r - 1)))))
        st.add(z3.Implies(r < e_.idx, z3.Not(p(sel(v.el, r)))))
        return IterV(b.lv, r, False, v.elty)
    return f


MODELS["std::lower_bound"] = bound_model(False)
MODELS["std::upper_bound"] = bound_model(True)


@std("std::equal_range")
def a_eqrange(ex, st, e, a):
    raise Unsupported("equal_range")


def find_model(ex, st, a, pred):
    rangeob(ex, st, a[0], a[1], "find")
    b, e_, v = bounds(ex, st, a[0], a[1])
    if b.rev:
        raise Unsupported("find on reverse iterators")
    r = z3.Const(uniq("fnd"), I)
    st.add(z3.And(r >= b.idx, r <= e_.idx))
    st.add(forall_range(b.idx, r, lambda k: z3.Not(pred(sel(v.el, k)))))
    st.add(z3.Implies(r < e_.idx, pred(sel(v.el, r))))
    return IterV(b.lv, r, False, v.elty)


@std("std::find")
def a_find(ex, st, e, a):
    x = ex.ld(st, a[2])
    return find_model(ex, st, a, lambda y: valeq(ex, st, y, x))


@std("std::find_if")
def a_find_if(ex, st, e, a):
    return find_model(ex, st, a, lambda y: ex.tobool(ex.pure_call(st, a[2], [y])))


@std("std::find_if_not")
def a_find_if_not(ex, st, e, a):
    return find_model(ex, st, a, lambda y: z3.Not(ex.tobool(ex.pure_call(st, a[2], [y]))))


def quant_model(kind):
    def f(ex, st, e, a):
        rangeob(ex, st, a[0], a[1], kind)
        b, e_, v = bounds(ex, st, a[0], a[1])
        lo, hi = (b.idx, e_.idx) if not b.rev else (e_.idx, b.idx)
        r = z3.Const(uniq(kind), B)
        pr = lambda y: ex.tobool(ex.pure_call(st, a[2], [y]))
        w = z3.Const(uniq("w"), I)
        if kind == "all_of":
            good = lambda y: pr(y)
        elif kind == "none_of":
            good = lambda y: z3.Not(pr(y))
        else:
            good = lambda y: z3.Not(pr(y))
        res = r if kind != "any_of" else z3.Not(r)
        st.add(z3.Implies(res, forall_range(lo, hi, lambda k: good(sel(v.el, k)))))
        st.add(z3.Or(res, z3.And(lo <= w, w < hi, z3.Not(good(sel(v.el, w))))))
        return r
    return f


for _k in ("all_of", "any_of", "none_of"):
    MODELS["std::" + _k] = quant_model(_k)


def extreme(mx):
    def f(ex, st, e, a):
        rangeob(ex, st, a[0], a[1], "extreme element")
        b, e_, v = bounds(ex, st, a[0], a[1])
        if b.rev:
            raise Unsupported("max_element on reverse iterators")
        c = cmpfn(ex, st, a, 2)
        r = z3.Const(uniq("ext"), I)
        st.add(z3.If(b.idx < e_.idx, z3.And(r >= b.idx, r < e_.idx), r == e_.idx))
        if mx:
            st.add(forall_range(b.idx, e_.idx, lambda k: z3.Not(c(sel(v.el, r), sel(v.el, k)))))
            st.add(forall_range(b.idx, r, lambda k: c(sel(v.el, k), sel(v.el, r))))
        else:
            st.add(forall_range(b.idx, e_.idx, lambda k: z3.Not(c(sel(v.el, k), sel(v.el, r)))))
            st.add(forall_range(b.idx, r, lambda k: c(sel(v.el, r), sel(v.el, k))))
        return IterV(b.lv, r, False, v.elty)
    return f


MODELS["std::max_element"] = extreme(True)
MODELS["std::min_element"] = extreme(False)


@std("std::minmax_element")
def a_minmax(ex, st, e, a):
    lo = extreme(False)(ex, st, e, a)
    hi = extreme(True)(ex, st, e, a)
    # minmax_element returns the LAST maximum
    b, e_, v = bounds(ex, st, a[0], a[1])
    c = cmpfn(ex, st, a, 2)
    r = z3.Const(uniq("ext"), I)
    st.add(z3.If(b.idx < e_.idx, z3.And(r >= b.idx, r < e_.idx), r == e_.idx))
    st.add(forall_range(b.idx, e_.idx, lambda k: z3.Not(c(sel(v.el, r), sel(v.el, k)))))
    t = e["t"]
    return StructV(t, FnSrc(lambda f: None), {"first": lo, "second": IterV(b.lv, r, False, v.elty)})


@std("std::accumulate")
def a_accum(ex, st, e, a):
    rangeob(ex, st, a[0], a[1], "accumulate")
    b, e_, v = bounds(ex, st, a[0], a[1])
    init = ex.ld(st, a[2])
    if len(a) > 3:
        return accum_loop(ex, st, e, a)
    if b.rev:
        raise Unsupported("accumulate reverse")
    if isinstance(init, Fl):
        el = v.el
        if isinstance(el, Fl):
            if el.k is not None or init.k is not None:
                return accum_loop(ex, st, e, a)
            F = ex.W.sumfn(lambda k: sel(el, k).r)
        else:
            x = el
            F = ex.W.sumfn(lambda k: z3.ToReal(sel(x, k)))
        return Fl(z3.simplify(init.r) + F(b.idx, e_.idx) if not (isnum(init.r) and init.r.as_fraction() == 0) else F(b.idx, e_.idx))
    if isinstance(init, z3.ExprRef) and init.sort() == I:
        if isinstance(v.el, Fl):
            return accum_loop(ex, st, e, a)   # truncating accumulation
        F = ex.W.sumfn(lambda k: z3.ToReal(sel(v.el, k)))
        r = z3.Const(uniq("acc"), I)
        st.add(z3.ToReal(r) == z3.ToReal(init) + F(b.idx, e_.idx))
        return r
    raise Unsupported("accumulate")


def accum_loop(ex, st, e, a):
    init = ex.ld(st, a[2])
    b, e_, v = bounds(ex, st, a[0], a[1])
    t = e["t"]
    acc = ex.cell(st, t, init)

    def body(z, x):
        if len(a) > 3:
            outs = []
            for s, r in ex.call_value(z, a[3], [acc_val(z), x]):
                ex.wr(s, acc, conv2(ex, s, ex.ld(s, r), t))
                outs.append(("n", s, None))
            return outs
        r = ex.binop(z, "+", acc_val(z), ex.ld(z, x), t)
        ex.wr(z, acc, conv2(ex, z, r, t))
        return [("n", z, None)]

    def acc_val(z):
        return ex.rd(z, acc)
    outs = each(ex, st, a[0], a[1], body)
    return [(s, ex.rd(s, acc)) for s in outs]


def conv2(ex, st, r, t):
    if t.k == "int" and isinstance(r, Fl):
        return ex.ftoi(st, r, t)
    if t.k == "float":
        return ex.tofl(r)
    return r


def each(ex, st, b, e_, body, count=None):
    """desugared loop over an iterator range; body(state, element LV)->outcomes; returns states"""
    rangeob(ex, st, b, e_, "range")
    b, e_ = ex.ld(st, b), ex.ld(st, e_)
    if isinstance(b, MapIterV):
        return each_map(ex, st, b, e_, body, count)
    it = ex.cell(st, INTTY, b.idx)
    vt = ex.rd(st, b.lv).elty
    if count is not None:      # number of elements already visited, for iterators advanced in step
        count.append((lambda z: z3.simplify(ex.rd(z, it) - b.idx if not b.rev else b.idx - ex.rd(z, it))))

    def cond(z):
        i = ex.rd(z, it)
        return [(z, z3.simplify(i < e_.idx if not b.rev else i > e_.idx))]

    def bd(z):
        i = ex.rd(z, it)
        return body(z, b.lv.i(i if not b.rev else z3.simplify(i - 1), vt))

    def inc(z):
        ex.wr(z, it, z3.simplify(ex.rd(z, it) + (1 if not b.rev else -1)))
        return [z]
    outs = ex.loop(st, LoopSpec(cond, bd, inc))
    return [s for k, s, v in outs if k == "n"]


def each_map(ex, st, b, e_, body, count=None):
    it = ex.cell(st, INTTY, b.pos)
    if count is not None:
        count.append(lambda z: z3.simplify(ex.rd(z, it) - b.pos))
    enum, posf = map_enum(ex, st, b.lv)
    val = ex.rd(st, b.lv)

    def cond(z):
        return [(z, z3.simplify(ex.rd(z, it) < e_.pos))]

    def bd(z):
        return body(z, map_entry(ex, z, b.lv, z3.Select(enum, ex.rd(z, it)), val))

    def inc(z):
        ex.wr(z, it, z3.simplify(ex.rd(z, it) + 1))
        return [z]
    outs = ex.loop(st, LoopSpec(cond, bd, inc))
    return [s for k, s, v in outs if k == "n"]


def outstep(ex, st, out, count):
    """like outcell for algorithms that write exactly one value per visited element"""
    o = ex.ld(st, out)
    if not isinstance(o, IterV):
        return outcell(ex, st, out)

    def w(z, x):
        i = z3.simplify(o.idx - 1 - count[0](z) if o.rev else o.idx + count[0](z))
        vec_ = ex.rd(z, o.lv)
        ex.ob(z, "output iterator in range", z3.And(i >= 0, i < vec_.n))
        ex.wr(z, o.lv.i(i), conv(ex, z, x, vec_.elty))
    return w, lambda z: IterV(o.lv, z3.simplify(o.idx - count[0](z) if o.rev else o.idx + count[0](z)), o.rev, o.elty)


def outcell(ex, st, out):
    """output iterator as (state,value)->None writer; returns (writer, result fn)"""
    out = ex.ld(st, out)
    if isinstance(out, PyV) and out.kind == "back_inserter":
        lv = out.data

        def w(z, x):
            v_push(ex, z, None, lv, [x])
        return w, lambda z: out
    if isinstance(out, IterV):
        oc = ex.cell(st, INTTY, out.idx)

        def w(z, x):
            i = ex.rd(z, oc)
            vec_ = ex.rd(z, out.lv)
            j = z3.simplify(i - 1) if out.rev else i     # a reverse iterator designates the element before its base
            ex.ob(z, "output iterator in range", z3.And(j >= 0, j < vec_.n))
            ex.wr(z, out.lv.i(j), conv(ex, z, x, vec_.elty))
            ex.wr(z, oc, j if out.rev else z3.simplify(i + 1))
        return w, lambda z: IterV(out.lv, ex.rd(z, oc), out.rev, out.elty)
    raise Unsupported("output iterator %r" % type(out))


@std("std::transform")
def a_transform(ex, st, e, a):
    if len(a) == 4:
        cnt = []
        w, res = outstep(ex, st, a[2], cnt)

        def body(z, x):
            outs = []
            for s, r in ex.call_value(z, a[3], [x]):
                w(s, ex.ld(s, r))
                outs.append(("n", s, None))
            return outs
        return [(s, res(s)) for s in each(ex, st, a[0], a[1], body, cnt)]
    cnt = []
    w, res = outstep(ex, st, a[3], cnt)
    b2 = ex.ld(st, a[2])

    def body(z, x):
        outs = []
        i2 = z3.simplify(b2.idx + cnt[0](z) if not b2.rev else b2.idx - cnt[0](z))
        y = ex.iterlv(z, IterV(b2.lv, i2, b2.rev, b2.elty))
        for s, r in ex.call_value(z, a[4], [x, y]):
            w(s, ex.ld(s, r))
            outs.append(("n", s, None))
        return outs
    return [(s, res(s)) for s in each(ex, st, a[0], a[1], body, cnt)]


@std("std::for_each")
def a_foreach(ex, st, e, a):
    def body(z, x):
        return [("n", s, None) for s, r in ex.call_value(z, a[2], [x])]
    return [(s, a[2]) for s in each(ex, st, a[0], a[1], body)]


@std("std::copy")
def a_copy(ex, st, e, a):
    cnt = []
    w, res = outstep(ex, st, a[2], cnt)

    def body(z, x):
        w(z, ex.ld(z, x))
        return [("n", z, None)]
    return [(s, res(s)) for s in each(ex, st, a[0], a[1], body, cnt)]


@std("std::copy_if")
def a_copy_if(ex, st, e, a):
    w, res = outcell(ex, st, a[2])

    def body(z, x):
        outs = []
        for s, r in ex.call_value(z, a[3], [x]):
            for s2, t in ex.branch(s, ex.tobool(ex.ld(s, r))):
                if t:
                    w(s2, ex.ld(s2, x))
                outs.append(("n", s2, None))
        return outs
    return [(s, res(s)) for s in each(ex, st, a[0], a[1], body)]


@std("std::count_if")
def a_count_if(ex, st, e, a):
    acc = ex.cell(st, INTTY, iv(0))

    def body(z, x):
        outs = []
        for s, r in ex.call_value(z, a[2], [x]):
            for s2, t in ex.branch(s, ex.tobool(ex.ld(s, r))):
                if t:
                    ex.wr(s2, acc, z3.simplify(ex.rd(s2, acc) + 1))
                outs.append(("n", s2, None))
        return outs
    return [(s, ex.rd(s, acc)) for s in each(ex, st, a[0], a[1], body)]


@std("std::count")
def a_count(ex, st, e, a):
    b, e_, v = bounds(ex, st, a[0], a[1])
    x = conv(ex, st, ex.ld(st, a[2]), v.elty)
    F = ex.W.sumfn(lambda k: z3.If(valeq(ex, st, sel(v.el, k), x), z3.RealVal(1), z3.RealVal(0)))
    r = z3.Const(uniq("cnt"), I)
    st.add(z3.ToReal(r) == F(b.idx, e_.idx))
    st.add(z3.And(r >= 0, z3.Or(r <= e_.idx - b.idx, e_.idx < b.idx)))
    return r


@std("std::fill")
def a_fill(ex, st, e, a):
    rangeob(ex, st, a[0], a[1], "fill")
    b, e_, v = bounds(ex, st, a[0], a[1])
    x = conv(ex, st, ex.ld(st, a[2]), v.elty)
    k = z3.Const("rk!", I)
    if isnum(b.idx) and b.idx.as_long() == 0 and e_.idx.eq(v.n):
        el = ex.lift(x)
    else:
        el = abstract(ite(z3.And(k >= b.idx, k < e_.idx), x, sel(v.el, k)), k)
    ex.wr(st, b.lv, VecV(v.elty, v.n, el))
    return None


@std("std::iota")
def a_iota(ex, st, e, a):
    rangeob(ex, st, a[0], a[1], "iota")
    b, e_, v = bounds(ex, st, a[0], a[1])
    x = ex.ld(st, a[2])
    k = z3.Const("rk!", I)
    val = (Fl(x.r + z3.ToReal(k - b.idx), x.k) if isinstance(x, Fl) else z3.simplify(x + k - b.idx))
    if v.elty.k == "float":
        val = ex.tofl(val)
    el = abstract(ite(z3.And(k >= b.idx, k < e_.idx), val, sel(v.el, k)), k)
    ex.wr(st, b.lv, VecV(v.elty, v.n, el))
    return None


@std("std::reverse")
def a_reverse(ex, st, e, a):
    rangeob(ex, st, a[0], a[1], "reverse")
    b, e_, v = bounds(ex, st, a[0], a[1])
    k = z3.Const("rk!", I)
    if isnum(b.idx) and b.idx.as_long() == 0 and e_.idx.eq(v.n):
        el = abstract(sel(v.el, z3.simplify(v.n - 1 - k)), k)
    else:
        el = abstract(ite(z3.And(k >= b.idx, k < e_.idx), sel(v.el, z3.simplify(b.idx + e_.idx - 1 - k)), sel(v.el, k)), k)
    ex.wr(st, b.lv, VecV(v.elty, v.n, el))
    return None


def leafarrays(v):
    if isinstance(v, Fl):
        v = v.r
    if isinstance(v, StructV):
        for f in sorted(set(v.over) | set(v.memo) | (set(v.src.memo) if isinstance(v.src, FreshSrc) else set())):
            x = v.get(f)
            if x is not None:
                yield from leafarrays(x)
    elif isinstance(v, z3.ExprRef) and z3.is_array(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED and v.num_args() == 0 and v.sort().domain() == I:
        yield v


def permute(ex, st, b, lo, hi, v, name="perm"):
    """replace v[lo,hi) by an arbitrary permutation; returns new vec and perm array"""
    p = z3.Const(uniq(name), z3.ArraySort(I, I))
    q = z3.Const(uniq(name + "inv"), z3.ArraySort(I, I))
    k = z3.Const("pk!", I)
    inr = lambda x: z3.And(x >= lo, x < hi)
    st.add(z3.ForAll([k], z3.Implies(inr(k), z3.And(inr(p[k]), q[p[k]] == k)), patterns=[p[k]]))
    st.add(z3.ForAll([k], z3.Implies(inr(k), z3.And(inr(q[k]), p[q[k]] == k)), patterns=[q[k]]))
    st.add(z3.ForAll([k], z3.Implies(z3.Not(inr(k)), p[k] == k), patterns=[p[k]]))
    # an element of the old range is found again in the new one
    for a in leafarrays(v.el):
        st.add(z3.ForAll([k], z3.Implies(inr(k), z3.And(inr(q[k]), p[q[k]] == k)), patterns=[z3.Select(a, k)]))
    kk = z3.Const("rk!", I)
    new = VecV(v.elty, v.n, abstract(sel(v.el, z3.Select(p, kk)), kk))
    # the inverse witnesses for old elements
    ex.perms = getattr(ex, "perms", [])
    ex.perms.append((p, q, lo, hi))
    return new, p, q


def sort_model(stable):
    def f(ex, st, e, a):
        rangeob(ex, st, a[0], a[1], "sort")
        b, e_, v = bounds(ex, st, a[0], a[1])
        lo, hi = (b.idx, e_.idx) if not b.rev else (e_.idx, b.idx)
        new, p, q = permute(ex, st, b, lo, hi, v)
        ex.wr(st, b.lv, new)
        thr = []
        c = cmpfn(ex, st, a, 2, thr)
        i, j = qk("i"), qk("j")
        nv = new
        c(sel(v.el, i), sel(v.el, j))
        if thr:
            ex.ob(st, "comparator never throws", z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < hi, lo <= j, j < hi), z3.Not(z3.Or(*thr)))))
            del thr[:]
        # comparator evaluated on elements of the sorted vector
        if not b.rev:
            st.add(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(c(sel(nv.el, j), sel(nv.el, i))))))
        else:
            st.add(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi), z3.Not(c(sel(nv.el, i), sel(nv.el, j))))))
        if stable:
            # equal elements keep their order
            st.add(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < hi,
                                                       z3.Not(c(sel(nv.el, i), sel(nv.el, j)))),
                                                z3.Select(p, i) < z3.Select(p, j))))
        return None
    return f


MODELS["std::sort"] = sort_model(False)
MODELS["std::stable_sort"] = sort_model(True)


@std("std::is_sorted")
def a_is_sorted(ex, st, e, a):
    b, e_, v = bounds(ex, st, a[0], a[1])
    c = cmpfn(ex, st, a, 2)
    r = z3.Const(uniq("issorted"), B)
    w = z3.Const(uniq("w"), I)
    lo, hi = b.idx, e_.idx
    bad = lambda k: c(sel(v.el, z3.simplify(k + 1)), sel(v.el, k))
    st.add(z3.Implies(r, forall_range(lo, hi - 1, lambda k: z3.Not(bad(k)))))
    if e_.rev is False:
        i, j = qk("i"), qk("j")
        # transitivity of the weak order gives the pairwise form
        st.add(z3.Implies(r, z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i <= j, j < hi),
                                                          z3.Not(c(sel(v.el, j), sel(v.el, i)))))))
    st.add(z3.Or(r, z3.And(lo <= w, w < hi - 1, bad(w))))
    return r


@std("std::adjacent_find")
def a_adjfind(ex, st, e, a):
    b, e_, v = bounds(ex, st, a[0], a[1])
    if len(a) > 2:
        p = lambda x, y: ex.tobool(ex.pure_call(st, a[2], [x, y]))
    else:
        p = lambda x, y: valeq(ex, st, x, y)
    r = z3.Const(uniq("adj"), I)
    st.add(z3.And(r >= b.idx, r <= e_.idx))
    at = lambda k: p(sel(v.el, k), sel(v.el, z3.simplify(k + 1)))
    st.add(z3.Implies(r < e_.idx, z3.And(r + 1 < e_.idx, at(r))))
    k = qk()
    st.add(z3.ForAll([k], z3.Implies(z3.And(b.idx <= k, k < r, k + 1 < e_.idx), z3.Not(at(k)))))
    return IterV(b.lv, r, False, v.elty)


@std("std::unique")
def a_unique(ex, st, e, a):
    """contract: result is a subsequence given by an increasing index map; adjacent results differ;
    every input value equals (as ==) a kept value when the range is sorted"""
    rangeob(ex, st, a[0], a[1], "unique")
    b, e_, v = bounds(ex, st, a[0], a[1])
    if len(a) > 2:
        raise Unsupported("unique with predicate")
    lo, hi = b.idx, e_.idx
    n = z3.Const(uniq("uniq_end"), I)
    st.add(z3.And(n >= lo, n <= hi, (n == lo) == (lo == hi)))
    m = z3.Const(uniq("umap"), z3.ArraySort(I, I))
    r = z3.Const(uniq("urep"), z3.ArraySort(I, I))
    k = z3.Const("pk!", I)
    kk = z3.Const("rk!", I)
    tail = fresh(ex.W, "utail", v.elty, (I,))
    el = abstract(ite(z3.And(kk >= lo, kk < n), sel(v.el, z3.Select(m, kk)), ite(kk < lo, sel(v.el, kk), ite(kk >= hi, sel(v.el, kk), sel(tail, kk)))), kk)
    inr = lambda x: z3.And(x >= lo, x < n)
    st.add(z3.ForAll([k], z3.Implies(inr(k), z3.And(m[k] >= k, m[k] < hi)), patterns=[m[k]]))
    st.add(z3.Implies(n > lo, m[lo] == lo))
    st.add(z3.ForAll([k], z3.Implies(z3.And(inr(k), k + 1 < n), z3.And(m[k] < m[k + 1], z3.Not(valeq(ex, st, sel(v.el, m[k]), sel(v.el, m[k + 1]))))), patterns=[m[k]]))
    st.add(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.And(inr(r[k]), valeq(ex, st, sel(v.el, k), sel(v.el, m[r[k]])), m[r[k]] <= k)), patterns=[r[k]]))
    # index-compatible trigger
    i, j = qk("i"), qk("j")
    st.add(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < n), m[i] < m[j]), patterns=[z3.MultiPattern(m[i], m[j])]))
    ex.wr(st, b.lv, VecV(v.elty, v.n, el))
    ex.uniqs = getattr(ex, "uniqs", [])
    ex.uniqs.append((m, r, lo, hi, n, v))
    return IterV(b.lv, n, False, v.elty)


@std("std::remove_if", "std::remove")
def a_remove_if(ex, st, e, a):
    rangeob(ex, st, a[0], a[1], "remove_if")
    b, e_, v = bounds(ex, st, a[0], a[1])
    lo, hi = b.idx, e_.idx
    callee = nq(e["f"]["q"]) if e and e.get("f") else "std::remove_if"
    if callee.endswith("remove"):
        x = ex.ld(st, a[2])
        pred = lambda y: valeq(ex, st, y, x)
    else:
        pred = lambda y: ex.tobool(ex.pure_call(st, a[2], [y]))
    n = z3.Const(uniq("rem_end"), I)
    m = z3.Const(uniq("rmap"), z3.ArraySort(I, I))
    r = z3.Const(uniq("rinv"), z3.ArraySort(I, I))
    st.add(z3.And(n >= lo, n <= hi))
    k = z3.Const("pk!", I)
    kk = z3.Const("rk!", I)
    tail = fresh(ex.W, "rtail", v.elty, (I,))
    el = abstract(ite(z3.And(kk >= lo, kk < n), sel(v.el, z3.Select(m, kk)), ite(z3.Or(kk < lo, kk >= hi), sel(v.el, kk), sel(tail, kk))), kk)
    inr = lambda x: z3.And(x >= lo, x < n)
    st.add(z3.ForAll([k], z3.Implies(inr(k), z3.And(m[k] >= k, m[k] < hi, z3.Not(pred(sel(v.el, m[k]))), r[m[k]] == k)), patterns=[m[k]]))
    st.add(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi, z3.Not(pred(sel(v.el, k)))), z3.And(inr(r[k]), m[r[k]] == k)), patterns=[r[k]]))
    i, j = qk("i"), qk("j")
    st.add(z3.ForAll([i, j], z3.Implies(z3.And(lo <= i, i < j, j < n), m[i] < m[j]), patterns=[z3.MultiPattern(m[i], m[j])]))
    ex.wr(st, b.lv, VecV(v.elty, v.n, el))
    ex.removes = getattr(ex, "removes", [])
    ex.removes.append((m, r, lo, hi, n, v))
    return IterV(b.lv, n, False, v.elty)


@std("std::nth_element", "std::partial_sort")
def a_nth(ex, st, e, a):
    b, _, v = bounds(ex, st, a[0], a[1])
    mid = ex.ld(st, a[1])
    e_ = ex.ld(st, a[2])
    new, p, q = permute(ex, st, b, b.idx, e_.idx, v)
    ex.wr(st, b.lv, new)
    c = cmpfn(ex, st, a, 3)
    n = mid.idx
    if "partial_sort" in (e["f"]["q"] if e and e.get("f") else ""):
        i, j = qk("i"), qk("j")
        st.add(z3.ForAll([i, j], z3.Implies(z3.And(b.idx <= i, i < j, j < e_.idx, i < n), z3.Not(c(sel(new.el, j), sel(new.el, i))))))
        return None
    st.add(z3.Implies(n < e_.idx, z3.And(
        forall_range(b.idx, n, lambda k: z3.Not(c(sel(new.el, n), sel(new.el, k)))),
        forall_range(n, e_.idx, lambda k: z3.Not(c(sel(new.el, k), sel(new.el, n)))))))
    return None


@std("std::distance")
def a_distance(ex, st, e, a):
    x, y = ex.ld(st, a[0]), ex.ld(st, a[1])
    if isinstance(x, MapIterV):
        return z3.simplify(y.pos - x.pos)
    return ex.iterop(st, "-", y, x)


@std("std::next")
def a_next(ex, st, e, a):
    return advance(ex, st, ex.ld(st, a[0]), ex.ld(st, a[1]) if len(a) > 1 else 1)


@std("std::prev")
def a_prev(ex, st, e, a):
    d = ex.ld(st, a[1]) if len(a) > 1 else iv(1)
    return advance(ex, st, ex.ld(st, a[0]), z3.simplify(-d))


@std("std::advance")
def a_advance(ex, st, e, a):
    ex.wr(st, a[0], advance(ex, st, ex.ld(st, a[0]), ex.ld(st, a[1])))
    return None


@std("std::back_inserter")
def a_backins(ex, st, e, a):
    return PyV("back_inserter", a[0])


@std("std::partial_sum")
def a_psum(ex, st, e, a):
    w, res = outcell(ex, st, a[2])
    b, e_, v = bounds(ex, st, a[0], a[1])
    if len(a) > 3 or not isinstance(v.el, Fl) or v.el.k is not None or b.rev:
        raise Unsupported("partial_sum")
    F = ex.W.sumfn(lambda k: sel(v.el, k).r)
    out = ex.ld(st, a[2])
    ov = ex.rd(st, out.lv)
    k = z3.Const("rk!", I)
    n = z3.simplify(e_.idx - b.idx)
    ex.ob(st, "partial_sum output range", z3.And(out.idx >= 0, out.idx + n <= ov.n))
    el = abstract(ite(z3.And(k >= out.idx, k < out.idx + n), Fl(F(b.idx, b.idx + (k - out.idx) + 1)), sel(ov.el, k)), k)
    ex.wr(st, out.lv, VecV(ov.elty, ov.n, el))
    return IterV(out.lv, z3.simplify(out.idx + n), False, out.elty)


@std("std::equal")
def a_equal(ex, st, e, a):
    f, n, v = seq_of(ex, st, a[0], a[1])
    b2 = ex.ld(st, a[2])
    v2 = ex.rd(st, b2.lv)
    r = z3.Const(uniq("equal"), B)
    w = z3.Const(uniq("w"), I)
    st.add(z3.Implies(r, forall_range(iv(0), n, lambda k: valeq(ex, st, f(k), sel(v2.el, b2.idx + k)))))
    st.add(z3.Or(r, z3.And(0 <= w, w < n, z3.Not(valeq(ex, st, f(w), sel(v2.el, b2.idx + w))))))
    return r


# functors
def functor(op):
    def f(ex, st, e, t, vs):
        return PyV("fn", lambda ex2, st2, args: ex2.binop(st2, op, ex2.ld(st2, args[0]), ex2.ld(st2, args[1]), t.args[0] if t.args and hasattr(t.args[0], "k") and t.args[0].k != "void" else None))
    return f


for _n, _o in (("plus", "+"), ("minus", "-"), ("multiplies", "*"), ("divides", "/"), ("less", "<"), ("greater", ">")):
    CONSTRUCT["std::" + _n] = functor(_o)


# ---------------------------------------------------------------- pairs, tuples
def mkpair(t, a, b, ex=None, st=None):
    if ex is not None and t.k == "rec" and len(t.args) == 2:
        a = conv(ex, st, a, t.args[0]) if not isinstance(a, LV) else a
        b = conv(ex, st, b, t.args[1]) if not isinstance(b, LV) else b
    return StructV(t, FnSrc(lambda f: None), {"first": a, "second": b})


@std("std::make_pair")
def f_make_pair(ex, st, e, a):
    return mkpair(e["t"], ex.ld(st, a[0]), ex.ld(st, a[1]), ex, st)


@con("std::pair")
def c_pair(ex, st, e, t, vs):
    if not vs:
        return ex.default(st, t)
    if len(vs) == 1:
        v = ex.ld(st, vs[0])
        return mkpair(t, v.get("first"), v.get("second"), ex, st)
    return mkpair(t, ex.ld(st, vs[0]), ex.ld(st, vs[1]), ex, st)


def mktuple(ex, st, t, vals):
    return StructV(t, FnSrc(lambda f: None), {str(i): conv(ex, st, v, t.args[i]) if i < len(t.args) else v
                                              for i, v in enumerate(vals)})


@std("std::make_tuple")
def f_make_tuple(ex, st, e, a):
    return mktuple(ex, st, e["t"], [ex.ld(st, x) for x in a])


@con("std::tuple")
def c_tuple(ex, st, e, t, vs):
    if not vs:
        return ex.default(st, t)
    if len(vs) == 1 and len(t.args) != 1:
        v = ex.ld(st, vs[0])
        if isinstance(v, StructV):
            if v.ty.tn == "std::pair":
                return mktuple(ex, st, t, [v.get("first"), v.get("second")])
            return mktuple(ex, st, t, [v.get(str(i)) for i in range(len(t.args))])
        return v
    return mktuple(ex, st, t, [ex.ld(st, x) for x in vs])


@std("std::tie")
def f_tie(ex, st, e, a):
    return TupleV(list(a))


@std("std::tuple::operator=", "std::pair::operator=")
def f_tupasg(ex, st, e, o, a):
    v = ex.ld(st, a[0])
    t = o if isinstance(o, TupleV) else None
    if t is None:
        try:
            x = ex.ld(st, o)
            if isinstance(x, TupleV):
                t = x
        except Unsupported:
            pass
    if t is not None:
        names = ["first", "second"] if isinstance(v, StructV) and v.ty.tn == "std::pair" else [str(i) for i in range(len(t.els))]
        vals = [v.get(n) if isinstance(v, StructV) else ex.ld(st, v.els[i]) for i, n in enumerate(names)]
        for lv, x in zip(t.els, vals):
            if isinstance(lv, LV):
                ex.wr(st, lv, x)
        return o
    ex.wr(st, o, v)
    return o


@std("std::get")
def f_get(ex, st, e, a):
    ta = e["f"].get("ta") or []
    i = ta[0]
    if not isinstance(i, int):
        raise Unsupported("std::get by type")
    v = ex.ld(st, a[0])
    if isinstance(v, TupleV):
        return v.els[i]
    n = str(i) if v.ty.tn == "std::tuple" else ["first", "second"][i]
    return a[0].f(n) if isinstance(a[0], LV) else v.get(n)


# ---------------------------------------------------------------- smart pointers
def sp_deref(ex, st, e, o, a):
    return ex.deref(st, o, "smart pointer")


def sp_arrow(ex, st, e, o, a):
    return PtrV(FALSE, ex.deref(st, o, "smart pointer"))


for _n in ("std::__shared_ptr_access", "std::shared_ptr", "std::unique_ptr", "std::__shared_ptr", "boost::optional",
           "std::optional"):
    MODELS[_n + "::operator->"] = sp_arrow
    MODELS[_n + "::operator*"] = sp_deref
    MODELS[_n + "::operator bool"] = lambda ex, st, e, o, a: z3.simplify(z3.Not(ex.ld(st, o).null))
    MODELS[_n + "::get"] = lambda ex, st, e, o, a: sp_get(ex, st, o)


def sp_get(ex, st, o):
    v = ex.ld(st, o)
    if isinstance(v, PtrV):
        return v
    return PtrV(v.null, o.d() if isinstance(o, LV) else ex.cell(st, None, v).d())


@std("std::make_shared", "std::make_unique")
def f_make_shared(ex, st, e, a):
    t = e["t"].args[0]
    return [(s, SPtrV(e["t"], FALSE, v)) for s, v in make_obj(ex, st, e, t, a)]


@con("std::shared_ptr", "std::unique_ptr", "std::weak_ptr")
def c_sptr(ex, st, e, t, vs):
    if not vs:
        return ex.default(st, t)
    v = ex.ld(st, vs[0])
    if isinstance(v, SPtrV):
        return SPtrV(t, v.null, v._val, v.mk)
    if isinstance(v, PtrV):
        if v.lv is None:
            return ex.default(st, t)
        return v
    return v


@std("std::shared_ptr::operator=", "std::unique_ptr::operator=", "std::weak_ptr::operator=")
def f_spasg(ex, st, e, o, a):
    v = ex.ld(st, a[0])
    t = e["f"]["cls"] if e and e.get("f") and e["f"].get("cls") is not None else None
    if isinstance(v, PtrV) and t is not None:
        v = conv(ex, st, v, t)
    elif isinstance(v, SPtrV) and t is not None:
        v = SPtrV(t, v.null, v._val, v.mk)
    ex.wr(st, o, v)
    return o


@std("std::weak_ptr::lock")
def f_lock(ex, st, e, o, a):
    return ex.ld(st, o)


@std("std::dynamic_pointer_cast", "std::static_pointer_cast", "std::const_pointer_cast")
def f_pcast(ex, st, e, a):
    q = nq(e["f"]["q"])
    v = ex.ld(st, a[0])
    if q.endswith("dynamic_pointer_cast"):
        tgt = e["t"].args[0]
        if isinstance(v, SPtrV) and isinstance(v.val, StructV) and derives(ex, v.val.ty, tgt):
            return v
        raise Unsupported("dynamic_pointer_cast")
    return v


@std("std::shared_ptr::reset", "std::unique_ptr::reset", "std::__shared_ptr::reset")
def f_spreset(ex, st, e, o, a):
    v = ex.ld(st, o)
    if a:
        raise Unsupported("reset(ptr)")
    ex.wr(st, o, SPtrV(v.ty, TRUE, None, (lambda: v.val)) if isinstance(v, SPtrV) else PtrV(TRUE, None))
    return None


# ---------------------------------------------------------------- maps and sets
M = ("std::map::", "std::unordered_map::", "std::set::", "std::unordered_set::")


def mstd(*names):
    def d(f):
        for n in names:
            for p in M:
                MODELS[p + n] = f
        return f
    return d


def mp(ex, st, o):
    v = ex.ld(st, o)
    if not isinstance(v, MapV):
        raise Unsupported("map operation on %r" % type(v))
    return v


def keyof(ex, st, x):
    return keyterm(ex.ld(st, x))


@mstd("operator[]")
def m_sub(ex, st, e, o, a):
    k = keyof(ex, st, a[0])
    v = mp(ex, st, o)
    ind = z3.Select(v.dom, k)
    if ex.qf(st, ind):
        return o.key(k, v.vty)
    d = ex.default(st, v.vty)
    n2 = z3.simplify(z3.If(ind, v.n, v.n + 1))
    val = sto(v.val, k, ite(ind, sel(v.val, k), conv(ex, st, d, v.vty)))
    ex.wr(st, o, MapV(v.kty, v.vty, z3.Store(v.dom, k, TRUE), val, n2))
    return o.key(k, v.vty)


@mstd("at")
def m_at(ex, st, e, o, a):
    k = keyof(ex, st, a[0])
    v = mp(ex, st, o)
    o = mkLV(ex, st, o)
    outs = []
    for s, t in ex.branch(st, z3.Select(v.dom, k)):
        if t:
            outs.append((s, o.key(k, v.vty)))
        else:
            ex.throw(s, "std::out_of_range")
    return outs


@mstd("size")
def m_size(ex, st, e, o, a):
    return mp(ex, st, o).n


@mstd("empty")
def m_empty(ex, st, e, o, a):
    return z3.simplify(mp(ex, st, o).n == 0)


@mstd("clear")
def m_clear(ex, st, e, o, a):
    v = mp(ex, st, o)
    ks = v.dom.sort().domain()
    ex.wr(st, o, MapV(v.kty, v.vty, z3.K(ks, FALSE), v.val, iv(0)))
    return None


@mstd("operator=")
def m_asg(ex, st, e, o, a):
    ex.wr(st, o, ex.ld(st, a[0]))
    return o


@mstd("count")
def m_count(ex, st, e, o, a):
    v = mp(ex, st, o)
    return z3.If(z3.Select(v.dom, keyof(ex, st, a[0])), iv(1), iv(0))


def map_enum(ex, st, lv):
    """enumeration of the keys: enum[0..n) injective onto dom, in key order; pos is its inverse"""
    v = ex.rd(st, lv)
    cache = ex.__dict__.setdefault("enumcache", {})
    key = (v.dom.get_id(), v.n.get_id())
    c = cache.get(key)
    if c is not None:
        return c[0], c[1]
    ks = v.dom.sort().domain()
    en = z3.Const(uniq("enum"), z3.ArraySort(I, ks))
    pos = z3.Const(uniq("epos"), z3.ArraySort(ks, I))
    i = z3.Const("ei!", I)
    k = z3.Const("ek!" + str(ks), ks)
    f1 = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), z3.And(z3.Select(v.dom, en[i]), pos[en[i]] == i)), patterns=[en[i]])
    f2 = z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.And(pos[k] >= 0, pos[k] < v.n, en[pos[k]] == k)),
                   patterns=[pos[k]])
    f3 = z3.ForAll([k], z3.Implies(z3.Select(v.dom, k), z3.And(pos[k] >= 0, pos[k] < v.n, en[pos[k]] == k)),
                   patterns=[z3.Select(v.dom, k)]) if z3.is_app(v.dom) and v.dom.num_args() == 0 else None
    nm = en.decl().name()
    ex.W.fact(f1, nm)
    ex.W.fact(f2, pos.decl().name())
    ex.W.fact(f2, nm)
    if f3 is not None:
        ex.W.fact(f3, nm)
    if ks in (I, R):
        j = z3.Const("ej!", I)
        ex.W.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < v.n), en[i] < en[j]),
                            patterns=[z3.MultiPattern(en[i], en[j])]), nm)
    cache[key] = (en, pos, v.dom, v.n)
    return en, pos


def keyval(ex, kty, k):
    if kty.k == "float":
        return Fl(k)
    return k


def map_entry(ex, st, lv, k, v):
    """pair<const K, V>& for maps, K for sets"""
    if v.vty is None:
        return ex.cell(st, v.kty, keyval(ex, v.kty, k))
    return TupleEntry([ex.cell(st, v.kty, keyval(ex, v.kty, k)), lv.key(k, v.vty)])


class TupleEntry(TupleV):
    """map entry: members first/second are lvalues"""


def mapiterlv(ex, st, it):
    v = ex.rd(st, it.lv)
    en, pos = map_enum(ex, st, it.lv)
    ex.ob(st, "map iterator dereferenceable", z3.And(it.pos >= 0, it.pos < v.n))
    return map_entry(ex, st, it.lv, z3.Select(en, it.pos), v)


@mstd("begin", "cbegin")
def m_begin(ex, st, e, o, a):
    return MapIterV(mkLV(ex, st, o), None, None, iv(0))


@mstd("end", "cend")
def m_end(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    return MapIterV(o, None, None, mp(ex, st, o).n)


@mstd("find")
def m_find(ex, st, e, o, a):
    o = mkLV(ex, st, o)
    v = mp(ex, st, o)
    k = keyof(ex, st, a[0])
    en, pos = map_enum(ex, st, o)
    p = z3.Select(pos, k)
    ind = z3.Select(v.dom, k)
    st.add(z3.Implies(ind, z3.And(p >= 0, p < v.n, z3.Select(en, p) == k)))
    return MapIterV(o, None, None, z3.If(ind, p, v.n))


@mstd("insert", "emplace")
def m_insert(ex, st, e, o, a):
    v = mp(ex, st, o)
    if v.vty is None:
        k = keyof(ex, st, a[0])
        ind = z3.Select(v.dom, k)
        ex.wr(st, o, MapV(v.kty, None, z3.Store(v.dom, k, TRUE), None, z3.simplify(z3.If(ind, v.n, v.n + 1))))
        return PyV("insert_result", (o, k, ind))
    if len(a) == 2:
        k = keyof(ex, st, a[0])
        x = ex.ld(st, a[1])
    else:
        p = ex.ld(st, a[0])
        if not isinstance(p, StructV):
            raise Unsupported("map insert")
        k = keyterm(p.get("first"))
        x = p.get("second")
    ind = z3.Select(v.dom, k)
    x = conv(ex, st, x, v.vty)
    val = sto(v.val, k, ite(ind, sel(v.val, k), x))
    ex.wr(st, o, MapV(v.kty, v.vty, z3.Store(v.dom, k, TRUE), val, z3.simplify(z3.If(ind, v.n, v.n + 1))))
    return PyV("insert_result", (o, k, ind))


@mstd("insert_or_assign")
def m_ioa(ex, st, e, o, a):
    v = mp(ex, st, o)
    k = keyof(ex, st, a[0])
    ind = z3.Select(v.dom, k)
    x = conv(ex, st, ex.ld(st, a[1]), v.vty)
    ex.wr(st, o, MapV(v.kty, v.vty, z3.Store(v.dom, k, TRUE), sto(v.val, k, x), z3.simplify(z3.If(ind, v.n, v.n + 1))))
    return PyV("insert_result", (o, k, ind))


@mstd("erase")
def m_erase(ex, st, e, o, a):
    v = mp(ex, st, o)
    x = ex.ld(st, a[0])
    if isinstance(x, MapIterV):
        en, pos = map_enum(ex, st, o)
        k = z3.Select(en, x.pos)
        ex.ob(st, "erase dereferenceable map iterator", z3.And(x.pos >= 0, x.pos < v.n))
    else:
        k = keyterm(x)
    ind = z3.Select(v.dom, k)
    ex.wr(st, o, MapV(v.kty, v.vty, z3.Store(v.dom, k, FALSE), v.val, z3.simplify(z3.If(ind, v.n - 1, v.n))))
    if isinstance(x, MapIterV):
        return x
    return z3.If(ind, iv(1), iv(0))


@con("std::map", "std::unordered_map", "std::set", "std::unordered_set")
def c_map(ex, st, e, t, vs):
    vs = [x for x in vs if not is_alloc(ex, st, x) and not (isinstance(x, PyV) and x.kind == "fn")]
    if not vs:
        return ex.default(st, t)
    v = ex.ld(st, vs[0])
    if isinstance(v, MapV):
        return v
    if isinstance(v, VecV) and isnum(v.n):
        m = ex.default(st, t)
        c = ex.cell(st, t, m)
        for i in range(v.n.as_long()):
            m_insert(ex, st, e, c, [sel(v.el, iv(i))])
        return ex.rd(st, c)
    raise Unsupported("map constructor")


# ---------------------------------------------------------------- misc
@std("std::function::function")
def c_fn(ex, st, e, a):
    return a[0]


CONSTRUCT["std::function"] = lambda ex, st, e, t, vs: ex.ld(st, vs[0])
CONSTRUCT["std::reference_wrapper"] = lambda ex, st, e, t, vs: vs[0]


@std("boost::range::combine", "boost::combine")
def f_combine(ex, st, e, a):
    return PyV("combine", list(a))


# ---------------------------------------------------------------- boost::logic::tribool
def tri(t, v):
    return StructV(t, FnSrc({"value": v}.get))


def trival(ex, st, x):
    v = ex.ld(st, x)
    return v.get("value")


@con("boost::logic::tribool")
def c_tribool(ex, st, e, t, vs):
    if not vs:
        return tri(t, iv(0))
    v = ex.ld(st, vs[0])
    if isinstance(v, StructV):
        return v
    if z3.is_expr(v) and z3.is_bool(v):
        return tri(t, z3.If(v, iv(1), iv(0)))
    if e["a"] and "indeterminate" in str(e["a"][0])[:4000] and not z3.is_expr(v):
        return tri(t, iv(2))
    raise Unsupported("tribool from " + str(type(v)))


@std("boost::logic::indeterminate")
def f_indet(ex, st, e, a):
    return trival(ex, st, a[0]) == 2


MODELS["boost::logic::tribool::operator bool"] = lambda ex, st, e, o, a: trival(ex, st, o) == 1


@std("boost::logic::tribool::operator=")
def f_triasg(ex, st, e, o, a):
    v = ex.ld(st, a[0])
    ex.wr(st, o, tri(e["f"]["cls"], v.get("value") if isinstance(v, StructV) else z3.If(v, iv(1), iv(0))))
    return o


@std("boost::logic::operator!")
def f_trinot(ex, st, e, a):
    v = trival(ex, st, a[0])
    return tri(e["t"].deref(), z3.If(v == 2, iv(2), 1 - v))


def tri_any(ex, st, x):
    v = ex.ld(st, x)
    return v.get("value") if isinstance(v, StructV) else z3.If(v, iv(1), iv(0))


@std("boost::logic::operator||")
def f_trior(ex, st, e, a):
    x, y = tri_any(ex, st, a[0]), tri_any(ex, st, a[1])
    return tri(e["t"].deref(), z3.If(z3.Or(x == 1, y == 1), iv(1), z3.If(z3.And(x == 0, y == 0), iv(0), iv(2))))


@std("boost::logic::operator&&")
def f_triand(ex, st, e, a):
    x, y = tri_any(ex, st, a[0]), tri_any(ex, st, a[1])
    return tri(e["t"].deref(), z3.If(z3.Or(x == 0, y == 0), iv(0), z3.If(z3.And(x == 1, y == 1), iv(1), iv(2))))


CONSTRUCT["boost::logic::detail::indeterminate_t"] = lambda ex, st, e, t, vs: PyV("indeterminate_t")
