"""C06: redshift / wavelength grids: spread over a range, centred windows, insertion of a fine sub-grid."""
from vc.spec import *

FILES = ["/verif/specs/tu/ranges.cpp", "common/zgridparam.cpp"]
HARNESS = "c06"
RULE = "ranges, steps, offsets and centres of varying scale (steps dividing the range exactly included); grids rebuilt in long double"
ASSUMPTIONS = ["begin <= end, step > 0 and range/step < 2^30 (callers' obligation; checked by the parameter checks)",
               "grid points are compared in exact arithmetic: rounding at the last point is covered by the harness only"]
Q = "NSEpic::CRange::"


def beg(r):
    return r.get("m_Begin").r


def end(r):
    return r.get("m_End").r


def pick(back, f):
    """both directions of a grid contract"""
    if back is True or back is False:
        return f(back)
    return [(n, IMP(back, p)) for n, p in [(n + " (backward)", p) for n, p in f(True)]] + [(n, IMP(NOT(back), p)) for n, p in f(False)]


def lin_pre(c, eps=0):
    d = c.a(0).r
    L = end(c.this) - beg(c.this)
    return [("ordered", L >= 0), ("step", d > eps), ("count fits", L + eps < d * 2 ** 30)]


def ordered_in(r, b, e):
    return [("not empty", r.n >= 1),
            ("strictly increasing", strict2(r)),
            ("inside the range", forall(iv(0), r.n, lambda k: AND(at(r, k) >= b, at(r, k) <= e)))]


def lin_ends(r, b, e, d, back):
    if not back:
        return [("starts at the lower border", at(r, 0) == b), ("next point would exceed the upper border", at(r, r.n - 1) + d > e)]
    return [("ends at the upper border", at(r, r.n - 1) == e), ("previous point would exceed the lower border", at(r, 0) - d < b)]


def lin_post(c, back):
    r, b, e, d = c.ret, beg(c.this), end(c.this), c.a(0).r
    return ordered_in(r, b, e) + pick(back, lambda bk: lin_ends(r, b, e, d, bk)) + [
        ("constant step", forall(iv(0), r.n - 1, lambda k: at(r, k + 1) - at(r, k) == d))]


def ex(c, x):
    return c.W.uf("exp", R, R)(x)


def ln(c, x):
    return c.W.uf("log", R, R)(x)


def log_pre(c, off, eps=0):
    b, e, d = beg(c.this) + off - eps, end(c.this) + off + eps, c.a(0).r
    return [("ordered", beg(c.this) <= end(c.this)), ("step", d > 0), ("positive", b > 0), ("no empty gap", b * (ex(c, d) - 1) > 2 * eps),
            ("count fits", ln(c, e) - ln(c, b) < d * 2 ** 30)]


def log_ends(c, r, b, e, d, off, back):
    g = ex(c, d)
    if not back:
        return [("starts at the lower border", at(r, 0) == b), ("next point would exceed the upper border", (at(r, r.n - 1) + off) * g > e + off)]
    return [("ends at the upper border", at(r, r.n - 1) == e), ("previous point would exceed the lower border", (at(r, 0) + off) < (b + off) * g)]


def log_post(c, off, back):
    r, b, e, d = c.ret, beg(c.this), end(c.this), c.a(0).r
    g = ex(c, d)
    return ordered_in(r, b, e) + pick(back, lambda bk: log_ends(c, r, b, e, d, off, bk)) + [
        ("constant ratio", forall(iv(0), r.n - 1, lambda k: at(r, k + 1) + off == (at(r, k) + off) * g))]


def log_lemmas(c, off):
    b, e, d = beg(c.this) + off, end(c.this) + off, c.a(0).r
    n = z3.ToReal(c.ret.n)
    D1, D = d * (n - 1), d * n
    E = lambda x: ex(c, x)
    lb, le = ln(c, b), ln(c, e)
    return [("a", E(D1 + lb) == E(D1) * E(lb)), ("b", E(D + lb) == E(D) * E(lb)),
            ("c", OR(c.ret.n == 1, E(D1 + lb) <= E(le))), ("d", OR(c.ret.n == 1, E(D + lb) > E(le))),
            ("e", E(le - D1) == E(-D1) * E(le)), ("f", OR(c.ret.n == 1, E(le - D1) >= E(lb)))]


def eps_ends(c, d, off=None):
    """after clipping the first and last point to the range"""
    r, b, e = c.ret, beg(c.this), end(c.this)
    g = None if off is None else ex(c, d)

    def f(back):
        if not back:
            return [("starts at the lower border", at(r, 0) == b),
                    ("next point would exceed the upper border", at(r, r.n - 1) + d > e if off is None else (at(r, r.n - 1) + off) * g > e + off)]
        return [("ends at the upper border", at(r, r.n - 1) == e),
                ("previous point would exceed the lower border", at(r, 0) - d < b if off is None else at(r, 0) + off < (b + off) * g)]
    return f


def eps_lemmas(c, off, eps, back):
    r, b, e, d = c.ret, beg(c.this), end(c.this), c.a(0).r
    g = ex(c, d)
    return [("g", g > 1), ("p", (e - b) * (g - 1) >= 0), ("q", eps * (g - 1) >= 0), ("fwd", (e + off) * g > e + off + eps), ("bwd", (b - eps + off) * g > b + off + eps),
            ("last", IMP(AND(r.n >= 2, NOT(back)), at(r, r.n - 2) < e)), ("first", IMP(AND(r.n >= 2, back), at(r, 1) > b))]


EPS = z3.RealVal("1/100000000")


def contracts():
    T = dict(exp_triples=True)
    lin = lambda f: Contract(Q + f, pre=lin_pre, post=lambda c: lin_post(c, True if "back" in f else c.a(1)), usable=True)
    o1 = z3.RealVal(1)
    res = lambda c: ordered_in(c.ret, beg(c.this), end(c.this))
    return [
        lin("SpreadOver_backward"), lin("SpreadOver"),
        Contract(Q + "SpreadOverLog_backward", pre=lambda c: log_pre(c, c.a(1).r), post=lambda c: log_post(c, c.a(1).r, True),
                 opts=T, lemmas=lambda c: log_lemmas(c, c.a(1).r), usable=True),
        Contract(Q + "SpreadOverLog", pre=lambda c: log_pre(c, c.a(1).r), post=lambda c: log_post(c, c.a(1).r, c.a(2)),
                 opts=T, lemmas=lambda c: [(n, IMP(NOT(c.a(2)), g)) for n, g in log_lemmas(c, c.a(1).r)], usable=True),
        Contract(Q + "SpreadOverLogZplusOne", pre=lambda c: log_pre(c, o1), post=lambda c: log_post(c, o1, c.a(1)), usable=True),
        Contract(Q + "SpreadOverEpsilon", pre=lambda c: lin_pre(c, c.a(2).r) + [("epsilon", c.a(2).r >= 0)], usable=True,
                 post=lambda c: res(c) + pick(c.a(1), eps_ends(c, c.a(0).r))),
        Contract(Q + "SpreadOverLogEpsilon", pre=lambda c: log_pre(c, c.a(1).r, c.a(3).r) + [("epsilon", c.a(3).r >= 0)],
                 post=lambda c: res(c) + pick(c.a(2), eps_ends(c, c.a(0).r, c.a(1).r)),
                 lemmas=lambda c: eps_lemmas(c, c.a(1).r, c.a(3).r, c.a(2))),
        Contract(Q + "SpreadOverLogZplusOneEpsilon", pre=lambda c: log_pre(c, o1, c.a(2).r) + [("epsilon", c.a(2).r >= 0)], usable=True,
                 post=lambda c: res(c) + pick(c.a(1), eps_ends(c, c.a(0).r, o1)),
                 lemmas=lambda c: eps_lemmas(c, o1, c.a(2).r, c.a(1))),
        Contract(Q + "spanCenteredWindow", usable=True,
                 pre=lambda c: window_pre(c.this, c.a(0).r, c.a(1), c.a(2).r, c),
                 post=lambda c: window_post(c.ret, beg(c.this), end(c.this), c.a(0).r, c.a(2).r)),
        Contract("NSEpic::insertWithDuplicates", sel=lambda f: len(f["params"]) == 4, usable=True, modifies=(0,),
                 pre=lambda c: [("position", AND(c.a(1) >= 0, c.a(3) >= 0, c.a(1) + c.a(3) <= c.a(0).n)), ("duplicates", c.a(3) <= c.a(2).n),
                                ("sizes", c.a(0).n + c.a(2).n < 2 ** 31 - 1)],
                 post=lambda c: insert_post(c.a(0), c.a2(0), c.a(1), c.a(2), c.a(3))),
        Contract("NSEpic::CZGridParam::getZGrid", usable=True, pre=lambda c: zgrid_pre(c), post=zgrid_post, nonfinite=("zcenter",)),
        Contract("NSEpic::CZGridListParams::insertSubgrid", modifies=(0, 1), pre=sub_pre, post=sub_post, lemmas=sub_lemmas),
    ]


def window_pre(r, center, log, d, c):
    b, e = beg(r), end(r)
    return [("centre inside", AND(b <= center, center <= e)), ("step", d > EPS),
            ("log step", IMP(log, AND(b + 1 - EPS > 0, (b + 1 - EPS) * (ex(c, d) - 1) > 2 * EPS,
                                      ln(c, e + 1 + EPS) - ln(c, b + 1 - EPS) < d * 2 ** 29))),
            ("logs", IMP(log, AND(ln(c, center + 1 + EPS) <= ln(c, e + 1 + EPS), ln(c, center + 1 - EPS) >= ln(c, b + 1 - EPS)))),
            ("count fits", e - b + EPS < d * 2 ** 29)]


def window_post(r, b, e, center, d):
    return ordered_in(r, b, e) + [("the centre is a grid point", exists(iv(0), r.n, lambda k: at(r, k) == center))]


def insert_post(old, new, pos, src, ndup):
    return [("size", new.n == old.n + src.n - ndup),
            ("before", forall(iv(0), pos, lambda k: at(new, k) == at(old, k))),
            ("inserted", forall(iv(0), src.n, lambda k: at(new, k + pos) == at(src, k))),
            ("after", forall(pos + ndup, old.n, lambda k: at(new, k + src.n - ndup) == at(old, k)))]


def zp(c):
    g = lambda f: c.this.get(f).r
    return g("zmin"), g("zmax"), g("zstep"), c.this.get("zcenter"), c.a(0)


def zgrid_pre(c):
    b, e, d, ctr, log = zp(c)
    rng = StructV(None, FnSrc({"m_Begin": c.this.get("zmin"), "m_End": c.this.get("zmax")}.get))
    x = IF(isnan(ctr), b, ctr.r)
    return [("ordered", b <= e), ("the centre is a number or NaN", OR(isnan(ctr), isfin(ctr)))] + window_pre(rng, x, log, d, c)


def zgrid_post(c):
    b, e, d, ctr, log = zp(c)
    r = c.ret
    return ordered_in(r, b, e) + [
        ("starts at the lower border", IMP(isnan(ctr), at(r, 0) == b)),
        ("reaches the upper border within a step", IMP(isnan(ctr), IF(log, (at(r, r.n - 1) + 1) * ex(c, d) > e + 1, at(r, r.n - 1) + d > e))),
        ("the centre is a grid point", IMP(NOT(isnan(ctr)), exists(iv(0), r.n, lambda k: at(r, k) == ctr.r)))]


def isnan(x):
    return z3.BoolVal(False) if x.k is None else x.k == 3


def isfin(x):
    return z3.BoolVal(True) if x.k is None else x.k == 0


def sub_pre(c):
    s, z = c.a(0), c.a(1)
    lo, hi = at(s, 0) - EPS, at(s, s.n - 1) + EPS
    return [("grids not empty", AND(s.n >= 2, z.n >= 2)), ("sizes", s.n + z.n < 2 ** 31 - 1),
            ("increasing", AND(strict2(z), strict2(s))),
            ("the window lies in the grid", AND(lo + EPS >= at(z, 0) - EPS, hi - EPS <= at(z, z.n - 1) + EPS, at(s, 1) > at(z, 0), at(s, s.n - 2) < at(z, z.n - 1))),
            ("some grid point in the window", exists(iv(0), z.n, lambda k: AND(at(z, k) >= lo, at(z, k) <= hi))),
            ("no more grid points in the window than in the sub-grid", forall(iv(0), z.n - s.n, lambda k: IMP(at(z, k) >= lo, at(z, k + s.n) > hi)))]


def sub_post(c):
    s, z, z2, s2 = c.a(0), c.a(1), c.a2(1), c.a2(0)
    p, nd = c.ret.get("0"), c.ret.get("1")
    n = s.n
    lo, hi = at(s, 0) - EPS, at(s, n - 1) + EPS
    return [("sub-grid keeps its size", s2.n == n),
            ("inserted at the window", AND(p >= 0, nd >= 1, p + nd <= z.n)),
            ("replaced points are those of the window", AND(forall(iv(0), p, lambda k: at(z, k) < lo), forall(p, p + nd, lambda k: AND(at(z, k) >= lo, at(z, k) <= hi)),
                                                            forall(p + nd, z.n, lambda k: at(z, k) > hi))),
            ("inner points of the sub-grid kept", forall(iv(1), n - 1, lambda k: at(s2, k) == at(s, k))),
            ("ends of the sub-grid", AND(at(s2, 0) == IF(lo > at(z, 0), at(s, 0), at(z, 0)), at(s2, n - 1) == IF(hi < at(z, z.n - 1), at(s, n - 1), at(z, z.n - 1))))] \
        + insert_post(z, z2, p, s2, nd) + [("the new grid is strictly increasing", strict2(z2))]


def sub_lemmas(c):
    """the new grid piece by piece: old points below, the sub-grid, old points above"""
    s, z, z2, s2 = c.a(0), c.a(1), c.a2(1), c.a2(0)
    p, nd, n = c.ret.get("0"), c.ret.get("1"), c.a(0).n
    q = p + n
    return sub_post(c)[:-1] + [
        ("below", forall2(iv(0), p, lambda i, j: at(z2, i) < at(z2, j))),
        ("sub-grid", forall2(iv(0), n, lambda i, j: at(s2, i) < at(s2, j))),
        ("inserted", forall(p, q, lambda k: at(z2, k) == at(s2, k - p))),
        ("after", forall(q, z2.n, lambda k: at(z2, k) == at(z, k - n + nd))),
        ("inner", forall2(p, q, lambda i, j: at(z2, i) < at(z2, j))),
        ("above", forall2(q, z2.n, lambda i, j: at(z2, i) < at(z2, j))),
        ("below sub-grid", forall(iv(0), p, lambda k: at(z2, k) < at(s2, 0))),
        ("above sub-grid", forall(q, z2.n, lambda k: at(z2, k) > at(s2, n - 1))),
        ("between", forall(p, q, lambda k: AND(at(z2, k) >= at(s2, 0), at(z2, k) <= at(s2, n - 1))))]
