"""C08: sample masks: intersection, counts, overlap fractions."""
from vc.spec import *

FILES = ["common/mask.cpp"]
HARNESS = "c08"
RULE = "masks of 0..40 samples of zeros and ones, sizes matching or not"
ASSUMPTIONS = ["mask samples are 0 or 1 (what every producer of masks writes)"]
Q = "NSEpic::CMask::"


def bits(v):
    return forall(iv(0), v.n, lambda k: OR(at(v, k) == 0, at(v, k) == 1))


def m(x):
    return x.get("m_Mask")


def pre1(c):
    return [("0 or 1", bits(m(c.this)))]


def pre(c):
    return [("0 or 1", AND(bits(m(c.this)), bits(m(c.a(0)))))]


def num(t):
    return z3.ToReal(t) if t.sort() == I else t


def count(c, v):
    return c.sum(lambda k: at(v, k))(0, v.n)


def meet(c):
    a, b, r = m(c.this), m(c.a(0)), m(c.this2)
    same_n = a.n == b.n
    return [("same size", r.n == a.n),
            ("kept where both masks keep", IMP(same_n, forall(iv(0), a.n, lambda k: (at(r, k) == 1) == AND(at(a, k) == 1, at(b, k) == 1)))),
            ("result is 0 or 1", bits(r)),
            ("unchanged when the sizes differ", IMP(NOT(same_n), forall(iv(0), a.n, lambda k: at(r, k) == at(a, k))))]


def fraction(c, num_):
    a, b = m(c.this), m(c.a(0))
    r = c.ret.r
    n = num(count(c, a))
    return [("undefined for different sizes", IMP(a.n != b.n, r == -1)),
            ("zero for an empty mask", IMP(AND(a.n == b.n, n == 0), r == 0)),
            ("ratio", IMP(AND(a.n == b.n, n != 0), r * n == num(num_)))]


def contracts():
    inter = lambda c: c.sum(lambda k: at(m(c.this), k) * at(m(c.a(0)), k))(0, m(c.this).n)
    return [
        Contract(Q + "GetUnMaskedSampleCount", pre=pre1, opts=dict(sum_bounds=True), post=lambda c: [("number of ones", c.ret == count(c, m(c.this)))], usable=True),
        Contract(Q + "GetMaskedSampleCount", pre=pre1, opts=dict(sum_bounds=True), post=lambda c: [("number of zeros", c.ret + count(c, m(c.this)) == m(c.this).n)]),
        Contract(Q + "operator&=", pre=pre, post=meet, modifies=("this",)),
        Contract(Q + "IntersectWith", pre=pre, post=lambda c: meet(c) + [("reports a size mismatch", c.ret == (m(c.this).n == m(c.a(0)).n))], modifies=("this",)),
        Contract(Q + "CompouteOverlapFraction", pre=pre, post=lambda c: fraction(c, count(c, m(c.a(0))))),
        Contract(Q + "IntersectAndComputeOverlapFraction", pre=pre, post=lambda c: fraction(c, inter(c))),
    ]
