"""Symbolic values.  Every aggregate is lazy; a value may be 'lifted' over a list
of index sorts (it then stands for a family of values, e.g. the elements of a
vector); sel/sto/ite work on all of them."""
import z3
from fractions import Fraction
from .ir import Unsupported, Ty

I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
Str = z3.DeclareSort("Str")
Obj = z3.DeclareSort("Obj")

_ctr = [0]


def uniq(p):
    _ctr[0] += 1
    return "%s!%d" % (p, _ctr[0])


def arr(sorts, base):
    s = base
    for x in reversed(sorts):
        s = z3.ArraySort(x, s)
    return s


def iv(n):
    return z3.IntVal(int(n))


_numcache = {}


def isnum(e):
    return z3.is_int_value(e) or z3.is_rational_value(e)


def simp_ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b or a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------- floats
# kind: None = finite everywhere, else Int leaf 0 finite, 1 +inf, 2 -inf, 3 nan
class Fl:
    __slots__ = ("r", "k")

    def __init__(self, r, k=None):
        self.r = r
        self.k = k

    def __repr__(self):
        return "Fl(%s,%s)" % (self.r, self.k)


FIN, PINF, NINF, NAN = 0, 1, 2, 3


def flc(x):
    if isinstance(x, str):
        if x == "inf":
            return Fl(z3.RealVal(0), iv(PINF))
        if x == "-inf":
            return Fl(z3.RealVal(0), iv(NINF))
        if x == "nan":
            return Fl(z3.RealVal(0), iv(NAN))
        return Fl(z3.RealVal(str(Fraction(x))))
    return Fl(z3.RealVal(str(Fraction(x))))


def kof(f):
    return f.k if f.k is not None else iv(0)


def fin(f):
    """z3 Bool: f is finite"""
    if f.k is None:
        return z3.BoolVal(True)
    if isnum(f.k):
        return z3.BoolVal(f.k.as_long() == 0)
    return f.k == 0


class StructV:
    __slots__ = ("ty", "src", "over", "memo")

    def __init__(self, ty, src, over=None):
        self.ty = ty; self.src = src; self.over = over or {}; self.memo = {}

    def get(self, f):
        if f in self.over:
            return self.over[f]
        v = self.memo.get(f)
        if v is None:
            v = self.src.field(f)
            self.memo[f] = v
        return v

    def set(self, f, v):
        o = dict(self.over)
        o[f] = v
        s = StructV(self.ty, self.src, o)
        s.memo = self.memo
        return s


class FreshSrc:
    def __init__(self, W, prefix, ty, idx):
        self.W = W; self.prefix = prefix; self.ty = ty; self.idx = idx; self.memo = {}

    def field(self, f):
        v = self.memo.get(f)
        if v is None:
            ft = self.W.fieldty(self.ty, f)
            v = fresh(self.W, self.prefix + "." + f, ft, self.idx)
            self.memo[f] = v
        return v


class SelSrc:
    def __init__(self, p, i):
        self.p = p; self.i = i

    def field(self, f):
        return sel(self.p.get(f), self.i)


class StoSrc:
    def __init__(self, p, i, x):
        self.p = p; self.i = i; self.x = x

    def field(self, f):
        return sto(self.p.get(f), self.i, self.x.get(f))


class IteSrc:
    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b

    def field(self, f):
        return ite(self.c, self.a.get(f), self.b.get(f))


class FnSrc:
    def __init__(self, fn):
        self.fn = fn

    def field(self, f):
        return self.fn(f)


class VecV:
    __slots__ = ("elty", "n", "el", "lit")

    def __init__(self, elty, n, el):
        self.elty = elty; self.n = n; self.el = el


class SPtrV:
    """smart pointer owning its pointee inline (value semantics) """
    __slots__ = ("ty", "null", "_val", "mk")

    def __init__(self, ty, null, val=None, mk=None):
        self.ty = ty; self.null = null; self._val = val; self.mk = mk

    @property
    def val(self):
        if self._val is None:
            self._val = self.mk()
        return self._val


class MapV:
    """std::map: dom/val arrays over the key; n is its size."""
    __slots__ = ("kty", "vty", "dom", "val", "n", "enum")

    def __init__(self, kty, vty, dom, val, n, enum=None):
        self.kty = kty; self.vty = vty; self.dom = dom; self.val = val; self.n = n; self.enum = enum


class LV:
    __slots__ = ("cell", "path", "ty")

    def __init__(self, cell, path=(), ty=None):
        self.cell = cell; self.path = path; self.ty = ty

    def __repr__(self):
        return "LV(%s,%s)" % (self.cell, self.path)

    def f(self, name, ty=None):
        return LV(self.cell, self.path + (("f", name),), ty)

    def i(self, idx, ty=None):
        return LV(self.cell, self.path + (("i", idx),), ty)

    def key(self, k, ty=None):
        return LV(self.cell, self.path + (("k", k),), ty)

    def d(self, ty=None):
        return LV(self.cell, self.path + (("d",),), ty)


class IterV:
    """iterator or pointer into the vector at lvalue lv, position idx"""
    __slots__ = ("lv", "idx", "rev", "elty")

    def __init__(self, lv, idx, rev=False, elty=None):
        self.lv = lv; self.idx = idx; self.rev = rev; self.elty = elty


class MapIterV:
    """key is valid when not end; pos is its rank if known"""
    __slots__ = ("lv", "key", "end", "pos", "pre")

    def __init__(self, lv, key, end, pos=None, pre=None):
        self.lv = lv; self.key = key; self.end = end; self.pos = pos; self.pre = pre


class PtrV:
    __slots__ = ("null", "lv")

    def __init__(self, null, lv):
        self.null = null; self.lv = lv


class ClosV:
    __slots__ = ("node", "caps", "this", "ty", "env")

    def __init__(self, node, caps, this, ty, env=None):
        self.node = node; self.caps = caps; self.this = this; self.ty = ty; self.env = env


class FnRef:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class TupleV:
    """std::tuple / tie (elements may be LV)"""
    __slots__ = ("els",)

    def __init__(self, els):
        self.els = els


class PyV:
    """opaque python-level helper value (back_inserter, functor objects...)"""
    __slots__ = ("kind", "data")

    def __init__(self, kind, data=None):
        self.kind = kind; self.data = data


class OpaqueV:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


VECS = {"std::vector", "std::deque", "std::list", "std::initializer_list", "std::array"}
SPTR = {"std::shared_ptr", "std::unique_ptr", "std::weak_ptr", "std::__shared_ptr"}
MAPS = {"std::map", "std::unordered_map"}
SETS = {"std::set", "std::unordered_set"}


def is_str(t):
    return t.k == "rec" and t.tn == "std::basic_string"


def fresh(W, name, ty, idx=()):
    idx = tuple(idx)
    if ty.k == "ref":
        ty = ty.t
    if ty.k == "bool":
        return z3.Const(uniq(name), arr(idx, B))
    if ty.k in ("int", "enum"):
        c = z3.Const(uniq(name), arr(idx, I))
        W.note_int(c, ty, idx)
        return c
    if ty.k == "float":
        r = z3.Const(uniq(name), arr(idx, R))
        if W.finite(name):
            return Fl(r)
        k = z3.Const(uniq(name + "#k"), arr(idx, I))
        W.note_kind(k, idx)
        return Fl(r, k)
    if ty.k == "ptr":
        if not idx and ty.t is not None:
            if ty.t.c:  # char*
                return z3.Const(uniq(name), Str)
            return SPtrV(ty, z3.Const(uniq(name + "#null"), arr(idx, B)), None, lambda: fresh(W, name + "->", ty.t, idx))
        return SPtrV(ty, z3.Const(uniq(name + "#null"), arr(idx, B)), None, lambda: fresh(W, name + "->", ty.t, idx))
    if ty.k == "arr":
        return VecV(ty.t, lit_len(idx, ty.num), fresh(W, name + "[]", ty.t, idx + (I,)))
    if ty.k == "rec":
        if is_str(ty):
            return z3.Const(uniq(name), arr(idx, Str))
        if ty.tn in VECS:
            if ty.tn == "std::array":
                return VecV(ty.args[0], lit_len(idx, ty.args[1]), fresh(W, name + "[]", ty.args[0], idx + (I,)))
            n = z3.Const(uniq(name + "#n"), arr(idx, I))
            W.note_len(n, idx)
            return VecV(ty.args[0], n, fresh(W, name + "[]", ty.args[0], idx + (I,)))
        if ty.tn in SPTR:
            return SPtrV(ty, z3.Const(uniq(name + "#null"), arr(idx, B)), None,
                         lambda: fresh(W, name + "->", ty.args[0], idx))
        if ty.tn in MAPS:
            ks = key_sort(ty.args[0])
            n = z3.Const(uniq(name + "#n"), arr(idx, I))
            W.note_len(n, idx)
            return MapV(ty.args[0], ty.args[1], z3.Const(uniq(name + "#dom"), arr(idx + (ks,), B)),
                        fresh(W, name + "[]", ty.args[1], idx + (ks,)), n)
        if ty.tn in SETS:
            ks = key_sort(ty.args[0])
            n = z3.Const(uniq(name + "#n"), arr(idx, I))
            W.note_len(n, idx)
            return MapV(ty.args[0], None, z3.Const(uniq(name + "#dom"), arr(idx + (ks,), B)), None, n)
        return StructV(ty, FreshSrc(W, name, ty, idx))
    return OpaqueV(z3.Const(uniq(name), arr(idx, Obj)))


def lit_len(idx, n):
    e = iv(n)
    for s in reversed(idx):
        e = z3.K(s, e)
    return e


def key_sort(t):
    if t.k in ("int", "enum"):
        return I
    if is_str(t):
        return Str
    if t.k == "float":
        return R
    raise Unsupported("map key type " + t.p)


def keyterm(v):
    if isinstance(v, Fl):
        return v.r
    return v


def _select(a, i):
    """select with light simplification of store chains / const arrays"""
    while True:
        if z3.is_app(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_CONST_ARRAY:
                return a.arg(0)
            if k == z3.Z3_OP_STORE:
                j = a.arg(1)
                if j.eq(i):
                    return a.arg(2)
                if isnum(j) and isnum(i):
                    a = a.arg(0)
                    continue
                d = z3.simplify(j - i) if j.sort() == I else None
                if d is not None and isnum(d):
                    if d.as_long() == 0:
                        return a.arg(2)
                    a = a.arg(0)
                    continue
            elif k == z3.Z3_OP_UNINTERPRETED and a.num_args() == 0:
                d = DEFS.get(a.decl().name())
                if d is not None:
                    return z3.substitute(d[1], (d[0], i))
        break
    return z3.Select(a, i)


def sel(v, i):
    if isinstance(v, Fl):
        return Fl(_select(v.r, i), None if v.k is None else _select(v.k, i))
    if isinstance(v, z3.ExprRef):
        return _select(v, i)
    if isinstance(v, StructV):
        return StructV(v.ty, SelSrc(v, i))
    if isinstance(v, VecV):
        return VecV(v.elty, _select(v.n, i), sel(v.el, i))
    if isinstance(v, SPtrV):
        return SPtrV(v.ty, _select(v.null, i), None, lambda: sel(v.val, i))
    if isinstance(v, MapV):
        return MapV(v.kty, v.vty, _select(v.dom, i), None if v.val is None else sel(v.val, i), _select(v.n, i))
    if isinstance(v, OpaqueV):
        return OpaqueV(_select(v.e, i))
    raise Unsupported("select on %r" % type(v))


def constarr(sort, val):
    return z3.K(sort, val)


def sto(v, i, x):
    if isinstance(v, Fl):
        if v.k is None and x.k is None:
            k = None
        elif v.k is None:
            if isnum(x.k) and x.k.as_long() == 0:
                k = None
            else:
                dom = v.r.sort().domain()
                base = iv(0)
                # nested arrays: only depth one can mix kinds lazily
                if v.r.sort().range().kind() == z3.Z3_ARRAY_SORT:
                    inner = v.r.sort().range()
                    ds = []
                    while inner.kind() == z3.Z3_ARRAY_SORT:
                        ds.append(inner.domain()); inner = inner.range()
                    for s in reversed(ds):
                        base = z3.K(s, base)
                k = z3.Store(z3.K(dom, base), i, x.k)
        else:
            xk = x.k
            if xk is None:
                xs = v.k.sort().range()
                ds = []
                while xs.kind() == z3.Z3_ARRAY_SORT:
                    ds.append(xs.domain()); xs = xs.range()
                xk = iv(0)
                for s in reversed(ds):
                    xk = z3.K(s, xk)
            k = z3.Store(v.k, i, xk)
        return Fl(z3.Store(v.r, i, x.r), k)
    if isinstance(v, z3.ExprRef):
        return z3.Store(v, i, x)
    if isinstance(v, StructV):
        if not isinstance(x, StructV):
            raise Unsupported("store of %r into struct vector" % type(x))
        return StructV(v.ty, StoSrc(v, i, x))
    if isinstance(v, VecV):
        return VecV(v.elty, z3.Store(v.n, i, x.n), sto(v.el, i, x.el))
    if isinstance(v, SPtrV):
        if not isinstance(x, SPtrV):
            raise Unsupported("store of pointer kind %r" % type(x))
        return SPtrV(v.ty, z3.Store(v.null, i, x.null), None, lambda: sto(v.val, i, x.val))
    if isinstance(v, MapV):
        return MapV(v.kty, v.vty, z3.Store(v.dom, i, x.dom), None if v.val is None else sto(v.val, i, x.val),
                    z3.Store(v.n, i, x.n))
    if isinstance(v, OpaqueV):
        return OpaqueV(z3.Store(v.e, i, x.e))
    raise Unsupported("store on %r" % type(v))


def ite(c, a, b):
    if a is b:
        return a
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isinstance(a, Fl):
        if a.k is None and b.k is None:
            k = None
        else:
            ka, kb = a.k, b.k
            if ka is None or kb is None:
                s = (ka if ka is not None else kb).sort()
                z = iv(0)
                ds = []
                while s.kind() == z3.Z3_ARRAY_SORT:
                    ds.append(s.domain()); s = s.range()
                for q in reversed(ds):
                    z = z3.K(q, z)
                ka = z if ka is None else ka
                kb = z if kb is None else kb
            k = simp_ite(c, ka, kb)
        return Fl(simp_ite(c, a.r, b.r), k)
    if isinstance(a, z3.ExprRef):
        return simp_ite(c, a, b)
    if isinstance(a, StructV) and isinstance(b, StructV):
        return StructV(a.ty, IteSrc(c, a, b))
    if isinstance(a, VecV):
        return VecV(a.elty, simp_ite(c, a.n, b.n), ite(c, a.el, b.el))
    if isinstance(a, SPtrV):
        return SPtrV(a.ty, simp_ite(c, a.null, b.null), None, lambda: ite(c, a.val, b.val))
    if isinstance(a, MapV):
        return MapV(a.kty, a.vty, simp_ite(c, a.dom, b.dom), None if a.val is None else ite(c, a.val, b.val),
                    simp_ite(c, a.n, b.n))
    if isinstance(a, OpaqueV):
        return OpaqueV(simp_ite(c, a.e, b.e))
    if isinstance(a, IterV) and isinstance(b, IterV) and a.lv.cell == b.lv.cell and same_path(a.lv.path, b.lv.path) \
            and a.rev == b.rev:
        return IterV(a.lv, simp_ite(c, a.idx, b.idx), a.rev, a.elty)
    raise Unsupported("merge of %r" % type(a))


def same_path(p, q):
    if len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if a[0] != b[0]:
            return False
        if a[0] == "f" and a[1] != b[1]:
            return False
        if a[0] in ("i", "k") and not (a[1] is b[1] or a[1].eq(b[1])):
            return False
    return True


def abstract(v, k):
    """the value lifted over index variable k (a z3 Int const): sel(abstract(v,k),i) == v[k:=i]"""
    if isinstance(v, Fl):
        return Fl(defarr(v.r, k), None if v.k is None else defarr(v.k, k))
    if isinstance(v, z3.ExprRef):
        return defarr(v, k)
    if isinstance(v, StructV):
        return StructV(v.ty, FnSrc(lambda f: abstract(v.get(f), k)))
    if isinstance(v, VecV):
        return VecV(v.elty, defarr(v.n, k), abstract(v.el, k))
    if isinstance(v, SPtrV):
        return SPtrV(v.ty, defarr(v.null, k), None, lambda: abstract(v.val, k))
    if isinstance(v, MapV):
        return MapV(v.kty, v.vty, defarr(v.dom, k), None if v.val is None else abstract(v.val, k), defarr(v.n, k))
    if isinstance(v, OpaqueV):
        return OpaqueV(defarr(v.e, k))
    raise Unsupported("abstract %r" % type(v))


DEFS = {}     # array const name -> (index var, body)
DEFFACTS = []  # consumed by World
_defmemo = {}


def defarr(body, k):
    """array A with A[k] = body, introduced by definition"""
    # const array / eta cases
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_SELECT and body.arg(1).eq(k):
        a = body.arg(0)
        if not _mentions(a, k):
            return a
    if not _mentions(body, k):
        return z3.K(k.sort(), body)
    kk = z3.Const("dk!" + str(k.sort()), k.sort())
    b2 = z3.substitute(body, (k, kk))
    key = (b2.get_id())
    hit = _defmemo.get(key)
    if hit is not None:
        return hit[0]
    a = z3.Const(uniq("def"), z3.ArraySort(k.sort(), body.sort()))
    _defmemo[key] = (a, b2)
    DEFS[a.decl().name()] = (kk, b2)
    f = z3.ForAll([kk], z3.Select(a, kk) == b2, patterns=[z3.Select(a, kk)])
    DEFFACTS.append((a, f))
    return a


def _mentions(e, k):
    from .theory import consts
    return k.decl().name() in consts(e)
