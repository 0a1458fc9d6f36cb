"""IEEE-like float values over the reals with explicit kinds (finite, +inf, -inf, nan).
Rounding and signed zero are not modelled (stated as an assumption)."""
import z3
from .values import *


def allfin(*xs):
    return all(x.k is None for x in xs)


def K(x):
    return kof(x)


def mk(r, k):
    k = z3.simplify(k)
    if isnum(k) and k.as_long() == 0:
        return Fl(r)
    return Fl(r, k)


def neg(a):
    if a.k is None:
        return Fl(-a.r)
    k = a.k
    return mk(-a.r, z3.If(k == PINF, iv(NINF), z3.If(k == NINF, iv(PINF), k)))


def add(a, b):
    if allfin(a, b):
        return Fl(a.r + b.r)
    ka, kb = K(a), K(b)
    k = z3.If(z3.Or(ka == NAN, kb == NAN), iv(NAN),
              z3.If(ka == 0, kb, z3.If(kb == 0, ka, z3.If(ka == kb, ka, iv(NAN)))))
    return mk(a.r + b.r, k)


def sub(a, b):
    if allfin(a, b):
        return Fl(a.r - b.r)
    return add(a, neg(b))


def sgn_pos(x):
    """x > 0 including +inf"""
    return z3.Or(K(x) == PINF, z3.And(K(x) == 0, x.r > 0))


def sgn_neg(x):
    return z3.Or(K(x) == NINF, z3.And(K(x) == 0, x.r < 0))


def iszero(x):
    return z3.And(K(x) == 0, x.r == 0)


def mul(a, b):
    if allfin(a, b):
        return Fl(a.r * b.r)
    ka, kb = K(a), K(b)
    nan = z3.Or(ka == NAN, kb == NAN, z3.And(ka != 0, iszero(b)), z3.And(kb != 0, iszero(a)))
    same = z3.Or(z3.And(sgn_pos(a), sgn_pos(b)), z3.And(sgn_neg(a), sgn_neg(b)))
    k = z3.If(z3.And(ka == 0, kb == 0), iv(0), z3.If(nan, iv(NAN), z3.If(same, iv(PINF), iv(NINF))))
    return mk(a.r * b.r, k)


def div(a, b, bnz):
    """bnz: True if the (finite) divisor is known to be non zero"""
    if allfin(a, b):
        if bnz:
            return Fl(a.r / b.r)
        z = b.r == 0
        return mk(a.r / b.r, z3.If(z, z3.If(a.r == 0, iv(NAN), z3.If(a.r > 0, iv(PINF), iv(NINF))), iv(0)))
    ka, kb = K(a), K(b)
    nan = z3.Or(ka == NAN, kb == NAN, z3.And(ka != 0, kb != 0), z3.And(iszero(a), iszero(b)))
    bneg = sgn_neg(b)
    inf = z3.Or(ka != 0, iszero(b))
    pos = z3.Or(z3.And(sgn_pos(a), z3.Not(bneg)), z3.And(sgn_neg(a), bneg))
    k = z3.If(nan, iv(NAN), z3.If(inf, z3.If(pos, iv(PINF), iv(NINF)), iv(0)))
    r = z3.If(z3.And(ka == 0, kb != 0), z3.RealVal(0), a.r / b.r)
    return mk(r, k)


def lt(a, b):
    if allfin(a, b):
        return a.r < b.r
    ka, kb = K(a), K(b)
    return z3.And(ka != NAN, kb != NAN,
                  z3.Or(z3.And(ka == 0, kb == 0, a.r < b.r),
                        z3.And(ka == NINF, kb != NINF),
                        z3.And(kb == PINF, ka != PINF)))


def le(a, b):
    if allfin(a, b):
        return a.r <= b.r
    ka, kb = K(a), K(b)
    return z3.And(ka != NAN, kb != NAN,
                  z3.Or(z3.And(ka == 0, kb == 0, a.r <= b.r), ka == NINF, kb == PINF))


def eq(a, b):
    if allfin(a, b):
        return a.r == b.r
    ka, kb = K(a), K(b)
    return z3.And(ka != NAN, ka == kb, z3.Or(ka != 0, a.r == b.r))


def same(a, b):
    """mathematical identity (nan same as nan)"""
    if allfin(a, b):
        return a.r == b.r
    ka, kb = K(a), K(b)
    return z3.And(ka == kb, z3.Or(ka != 0, a.r == b.r))


def absv(a):
    r = z3.If(a.r >= 0, a.r, -a.r)
    if a.k is None:
        return Fl(r)
    return mk(r, z3.If(a.k == NINF, iv(PINF), a.k))


def isnan(a):
    return K(a) == NAN


def isinf(a):
    return z3.Or(K(a) == PINF, K(a) == NINF)


def tobool(a):
    return z3.Not(iszero(a)) if a.k is not None else a.r != 0
