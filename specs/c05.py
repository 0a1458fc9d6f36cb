"""C05: sample look-up in ordered lists: inclusive/enclosing intervals, nearest samples, range algebra."""
from vc.spec import *

FILES = ["/verif/specs/tu/ranges.cpp"]
HARNESS = "c05"
RULE = "ordered lists of 0..30 samples with probes on, between and outside the samples; expected indices recomputed by linear scan"
ASSUMPTIONS = ["lists handed to the look-ups are strictly increasing (callers' obligation; established by the axis and grid checks)"]
Q = "NSEpic::CRange::"
X = "NSEpic::CIndexing::"


def beg(r):
    return r.get("m_Begin").r


def end(r):
    return r.get("m_End").r


def lowest_ge(v, i, x):
    """i is the first index with v[i] >= x (v.n when there is none)"""
    return AND(i >= 0, i <= v.n, IMP(i < v.n, at(v, i) >= x), IMP(i > 0, at(v, i - 1) < x))


def closed_ok(v, b, e):
    return exists(iv(0), v.n, lambda k: AND(at(v, k) >= b, at(v, k) <= e))


def closed(c):
    v, i, j = c.a(0), c.a2(1), c.a2(2)
    b, e = beg(c.this), end(c.this)
    return [("bounds", AND(i >= 0, i <= j, j < v.n)),
            ("first sample inside", AND(at(v, i) >= b, IMP(i > 0, at(v, i - 1) < b))),
            ("last sample inside", AND(at(v, j) <= e, IMP(j + 1 < v.n, at(v, j + 1) > e))),
            ("exactly the samples of the range", forall(iv(0), v.n, lambda k: AND(i <= k, k <= j) == AND(at(v, k) >= b, at(v, k) <= e)))]


def closed_throws(c):
    v = c.a(0)
    b, e = beg(c.this), end(c.this)
    out = OR(e < at(v, 0), b > at(v, v.n - 1))
    return {"EMPTY_LIST": v.n == 0, "CRANGE_VECTBORDERS_OUTSIDERANGE": AND(v.n > 0, out),
            "CRANGE_NO_INTERSECTION": AND(v.n > 0, NOT(out), NOT(closed_ok(v, b, e)))}


def enclosing(v, i, j, b, e):
    return [("bounds", AND(i >= 0, i < v.n, j >= 0, j < v.n)),
            ("last sample not above the lower border", AND(at(v, i) <= b, IMP(i + 1 < v.n, at(v, i + 1) > b))),
            ("first sample not below the upper border", AND(at(v, j) >= e, IMP(j > 0, at(v, j - 1) < e)))]


ILO, IHI = z3.Int("i_lo"), z3.Int("i_hi")


def is_lo(v, b, i):
    return AND(0 <= i, i < v.n, at(v, i) <= b, IMP(i + 1 < v.n, at(v, i + 1) > b))


def is_hi(v, e, j):
    return AND(0 <= j, j < v.n, at(v, j) >= e, IMP(j > 0, at(v, j - 1) < e))


def unique(v, i, j, b, e):
    """any index with the same property is this one"""
    return [("the only such lower sample", IMP(is_lo(v, b, ILO), i == ILO)), ("the only such upper sample", IMP(is_hi(v, e, IHI), j == IHI))]


def ordered(c):
    return [("strictly increasing", strict2(c.a(0)))]


def ranged(c):
    return ordered(c) + [("ordered range", beg(c.this) <= end(c.this))]


def outside(c):
    v = c.a(0)
    return AND(v.n > 0, OR(beg(c.this) < at(v, 0), end(c.this) > at(v, v.n - 1)))


def contracts():
    two = lambda f: len(f["params"]) == 3
    val = lambda f: len(f["params"]) == 4
    A, B2 = (lambda c: c.a(0)), (lambda c: c.a(1))
    inter = lambda a, b: AND(IF(beg(a) >= beg(b), beg(a), beg(b)) <= IF(end(a) <= end(b), end(a), end(b)))
    mx = lambda a, b: IF(a >= b, a, b)
    mn = lambda a, b: IF(a <= b, a, b)
    return [
        Contract(Q + "getClosedIntervalIndices", pre=ordered, post=closed, throws=closed_throws, modifies=(1, 2)),
        Contract(Q + "getEnclosingIntervalIndices", sel=two, pre=ranged, modifies=(1, 2), name="getEnclosingIntervalIndices(range)",
                 post=lambda c: enclosing(c.a(0), c.a2(1), c.a2(2), beg(c.this), end(c.this)),
                 throws=lambda c: {"EMPTY_LIST": c.a(0).n == 0, "CRANGE_VECTBORDERS_OUTSIDERANGE": outside(c)}),
        Contract(Q + "getEnclosingIntervalIndices", sel=val, pre=ranged, modifies=(2, 3), name="getEnclosingIntervalIndices(value)",
                 post=lambda c: enclosing(c.a(0), c.a2(2), c.a2(3), beg(c.this), end(c.this)) + unique(c.a(0), c.a2(2), c.a2(3), beg(c.this), end(c.this)),
                 throws=lambda c: {"CRANGE_VALUE_OUTSIDERANGE": OR(c.a(1).r < beg(c.this), c.a(1).r > end(c.this)),
                                   "EMPTY_LIST": AND(c.a(0).n == 0, c.a(1).r >= beg(c.this), c.a(1).r <= end(c.this)),
                                   "CRANGE_VECTBORDERS_OUTSIDERANGE": AND(outside(c), c.a(1).r >= beg(c.this), c.a(1).r <= end(c.this))}),
        Contract(X + "getClosestLowerIndex", pre=lambda c: ordered(c) + [("not empty", c.a(0).n > 0)], modifies=(2,),
                 post=lambda c: [("found unless below the first sample", c.ret == (c.a(1).r >= at(c.a(0), 0))),
                                 ("largest index not above the value", IMP(c.ret, AND(c.a2(2) >= 0, c.a2(2) < c.a(0).n, at(c.a(0), c.a2(2)) <= c.a(1).r,
                                     forall(iv(0), c.a(0).n, lambda k: IMP(k > c.a2(2), at(c.a(0), k) > c.a(1).r)))))]),
        Contract(X + "getClosestUpperIndex", pre=lambda c: ordered(c) + [("not empty", c.a(0).n > 0)], modifies=(2,),
                 post=lambda c: [("found unless above the last sample", c.ret == (c.a(1).r <= at(c.a(0), c.a(0).n - 1))),
                                 ("smallest index not below the value", IMP(c.ret, AND(c.a2(2) >= 0, c.a2(2) < c.a(0).n, at(c.a(0), c.a2(2)) >= c.a(1).r,
                                     forall(iv(0), c.a(0).n, lambda k: IMP(k < c.a2(2), at(c.a(0), k) < c.a(1).r)))))]),
        Contract(X + "getCloserIndex", pre=lambda c: ordered(c) + [("not empty", c.a(0).n > 0)],
                 post=lambda c: [("in bounds", AND(c.ret >= 0, c.ret < c.a(0).n)),
                                 ("no sample is closer", forall(iv(0), c.a(0).n, lambda k: absr(at(c.a(0), c.ret) - c.a(1).r) <= absr(at(c.a(0), k) - c.a(1).r)))]),
        Contract(X + "getIndex", post=lambda c: [("position of the value", AND(c.ret >= 0, c.ret < c.a(0).n, at(c.a(0), c.ret) == c.a(1).r)),
                                                 ("first position", forall(iv(0), c.ret, lambda k: at(c.a(0), k) != c.a(1).r))],
                 throws=lambda c: {"INTERNAL_ERROR": NOT(exists(iv(0), c.a(0).n, lambda k: at(c.a(0), k) == c.a(1).r))}),
        Contract(Q + "Intersect", modifies=(2,),
                 post=lambda c: [("reports whether they meet", c.ret == inter(A(c), B2(c))),
                                 ("intersection", IMP(c.ret, AND(beg(c.a2(2)) == mx(beg(A(c)), beg(B2(c))), end(c.a2(2)) == mn(end(A(c)), end(B2(c)))))),
                                 ("untouched otherwise", IMP(NOT(c.ret), AND(beg(c.a2(2)) == beg(c.a(2)), end(c.a2(2)) == end(c.a(2)))))]),
        Contract(Q + "IntersectWith", modifies=("this",),
                 post=lambda c: [("reports whether they meet", c.ret == inter(c.this, A(c))),
                                 ("intersection", IMP(c.ret, AND(beg(c.this2) == mx(beg(c.this), beg(A(c))), end(c.this2) == mn(end(c.this), end(A(c)))))),
                                 ("untouched otherwise", IMP(NOT(c.ret), AND(beg(c.this2) == beg(c.this), end(c.this2) == end(c.this))))]),
        Contract(Q + "getUnion", modifies=(2,),
                 post=lambda c: [("only when they meet", c.ret == inter(A(c), B2(c))),
                                 ("hull", IMP(c.ret, AND(beg(c.a2(2)) == mn(beg(A(c)), beg(B2(c))), end(c.a2(2)) == mx(end(A(c)), end(B2(c))))))]),
        Contract(Q + "HasIntersection", post=lambda c: [("reports whether they meet", c.ret == inter(A(c), B2(c)))]),
        Contract(Q + "HasIntersectionWith", post=lambda c: [("reports whether they meet", c.ret == inter(c.this, A(c)))]),
        Contract(Q + "unionWith", modifies=("this",),
                 post=lambda c: [("only when they meet", c.ret == inter(c.this, A(c))),
                                 ("hull", IF(c.ret, AND(beg(c.this2) == mn(beg(c.this), beg(A(c))), end(c.this2) == mx(end(c.this), end(A(c)))),
                                             AND(beg(c.this2) == beg(c.this), end(c.this2) == end(c.this))))]),
        Contract(Q + "Clamp", pre=lambda c: [("ordered", beg(c.this) <= end(c.this))],
                 post=lambda c: [("inside", AND(c.ret.r >= beg(c.this), c.ret.r <= end(c.this))),
                                 ("identity inside", IMP(AND(c.a(0).r >= beg(c.this), c.a(0).r <= end(c.this)), c.ret.r == c.a(0).r)),
                                 ("nearest border", AND(IMP(c.a(0).r < beg(c.this), c.ret.r == beg(c.this)), IMP(c.a(0).r > end(c.this), c.ret.r == end(c.this))))]),
        Contract(Q + "joinIntersections", pre=lambda c: [("ordered ranges", forall(iv(0), c.a(0).n, lambda k: beg(sel(c.a(0).el, k)) <= end(sel(c.a(0).el, k))))],
                 throws=lambda c: {"EMPTY_LIST": c.a(0).n == 0}, post=join_post, loops=join_loops),
    ]


def rb(v, k):
    return sel(v.el, k).get("m_Begin").r


def re_(v, k):
    return sel(v.el, k).get("m_End").r


def join_post(c):
    v, r = c.a(0), c.ret
    x = z3.Const("x_any", R)
    cov = lambda w: exists(iv(0), w.n, lambda k: AND(rb(w, k) <= x, x <= re_(w, k)))
    return [("not empty", r.n >= 1),
            ("ordered and disjoint", forall(iv(0), r.n - 1, lambda k: re_(r, k) < rb(r, k + 1))),
            ("every result range is ordered", forall(iv(0), r.n, lambda k: rb(r, k) <= re_(r, k))),
            ("every input point is covered", IMP(cov(v), cov(r))),
            ("nothing else is covered", IMP(cov(r), cov(v)))]


def join_loops(c, lc):
    x = z3.Const("x_any", R)
    if lc.i is None:
        return []
    isr = lambda t: t is not None and "CRange" in str(getattr(t, "p", ""))
    res = [h for h, e in lc.vecs() if isr(h.elty)]
    cur = [lc.head.mem[cell] for cell, path in lc.loop.mods if isinstance(lc.head.mem[cell], StructV) and isr(lc.head.mem[cell].ty)]
    mod = {cell for cell, _ in lc.loop.mods}
    src = [v for cell, v in lc.entry.mem.items() if cell not in mod and isinstance(v, VecV) and isr(v.elty)]
    out = []
    for r in res:
        out += [("disjoint", forall(iv(0), r.n - 1, lambda k: re_(r, k) < rb(r, k + 1))),
                ("ordered", forall(iv(0), r.n, lambda k: rb(r, k) <= re_(r, k)))]
        for u in cur:
            out.append(("last before current", IMP(r.n > 0, re_(r, r.n - 1) < beg(u))))
    for u in cur:
        out.append(("current ordered", beg(u) <= end(u)))
        for v in src:
            out.append(("current begins first", forall(lc.i, v.n, lambda k: beg(u) <= rb(v, k))))
            for r in res:
                covr = OR(AND(beg(u) <= x, x <= end(u)), exists(iv(0), r.n, lambda k: AND(rb(r, k) <= x, x <= re_(r, k))))
                out.append(("covers", covr == exists(iv(0), lc.i, lambda k: AND(rb(v, k) <= x, x <= re_(v, k)))))
    return out
