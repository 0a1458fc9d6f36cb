"""C26: wavelength axis: scaling and masking of samples, wavelength look-up, cached answers never stale."""
from vc.spec import *

FILES = ["spectrum/spectralaxis.cpp", "spectrum/axis.cpp"]
HARNESS = "c26"
RULE = "random axes (increasing, logarithmic, unordered, with duplicates), random histories of axis operations; answers compared with a fresh axis"
ASSUMPTIONS = ["wavelengths are positive where logarithms of their ratios are taken", "air-to-vacuum conversion is C09's subject"]
Q = "NSEpic::CSpectrumSpectralAxis::"
B = "NSEpic::CSpectrumAxis::"


def S(x):
    return x.get("m_Samples")


def tri(x, f):
    return x.get(f).get("value")


def rng(x):
    return AND(tri(x, "m_isSorted") >= 0, tri(x, "m_isSorted") <= 2, tri(x, "m_isLogSampled") >= 0, tri(x, "m_isLogSampled") <= 2)


def srt(x):
    """a cached answer on sortedness is true of the samples"""
    return AND(IMP(tri(x, "m_isSorted") == 1, strict(S(x))), IMP(tri(x, "m_isSorted") == 0, NOT(strict(S(x)))))


def ln(c, x):
    return c.W.uf("log", R, R)(x)


def regular(c, v):
    g = ln(c, at(v, 1) / at(v, 0))
    return forall(iv(1), v.n, lambda k: absr((ln(c, at(v, k) / at(v, k - 1)) - g) / g) <= z3.RealVal("1/10"))


def logs(c, x):
    """a cached 'log-sampled' is true of the samples"""
    return IMP(tri(x, "m_isLogSampled") == 1, regular(c, S(x)))


def pos(v):
    return forall(iv(0), v.n, lambda k: at(v, k) > 0)


def scaled(c, f):
    a, b = S(c.this), S(c.this2)
    return [("same size", b.n == a.n), ("every sample scaled", forall(iv(0), a.n, lambda k: f(at(a, k), at(b, k))))]


def inv(c, log=True):
    return [("a cached 'sorted' stays true", srt(c.this2))] + ([("a cached 'log-sampled' stays true", logs(c, c.this2))] if log else [])


def invpre(c, log=True):
    return [("cache", rng(c.this)), ("sorted", srt(c.this))] + ([("log", logs(c, c.this))] if log else [])


def masked(c):
    v, m, lo, hi = S(c.this), c.a2(1).get("m_Mask"), c.a(0).get("m_Begin").r, c.a(0).get("m_End").r
    return [("one flag per sample", m.n == v.n),
            ("exactly the samples of the range", forall(iv(0), v.n, lambda k: AND(OR(at(m, k) == 0, at(m, k) == 1), (at(m, k) == 1) == AND(at(v, k) >= lo, at(v, k) <= hi))))]


def overlap(c):
    v, m, lo, hi = S(c.this), c.a(1).get("m_Mask"), c.a(0).get("m_Begin").r, c.a(0).get("m_End").r
    ins = lambda k: AND(at(v, k) >= lo, at(v, k) <= hi)
    n = c.sum(lambda k: IF(ins(k), F1, F0))(0, v.n)
    o = c.sum(lambda k: IF(AND(ins(k), at(m, k) != 0), F1, F0))(0, v.n)
    return [("zero without samples in the range", IMP(n == 0, c.ret.r == 0)), ("fraction of unmasked samples", IMP(n != 0, c.ret.r * n == o))]


F0, F1 = z3.RealVal(0), z3.RealVal(1)


def clamp(c):
    v = S(c.this)
    lo, hi = c.a(0).get("m_Begin").r, c.a(0).get("m_End").r
    a, b = at(v, 0), at(v, v.n - 1)
    return IF(lo < a, a, lo), IF(hi > b, b, hi)


def idx_post(v, x, r):
    return [("in bounds", AND(r >= 0, r < v.n)), ("first sample not below, or the last", IF(x >= at(v, v.n - 1), r == v.n - 1, AND(at(v, r) >= x, IMP(r > 0, at(v, r - 1) < x))))]


def contracts():
    spec = dict(thisclass="NSEpic::CSpectrumSpectralAxis")
    r1 = lambda c: c.a(0).r
    factor = lambda c: invpre(c, False)
    empty = lambda r: r.get("m_Begin").r == r.get("m_End").r
    return [
        Contract(Q + "operator*=", pre=factor, modifies=("this",), usable=True, post=lambda c: scaled(c, lambda a, b: b == a * r1(c)) + inv(c, False)),
        Contract(Q + "operator/=", pre=lambda c: factor(c) + [("factor", r1(c) != 0)], modifies=("this",), usable=True, post=lambda c: scaled(c, lambda a, b: b * r1(c) == a) + inv(c, False)),
        Contract(Q + "SetSize", pre=lambda c: invpre(c, False) + [("size", c.a(0) >= 0)], modifies=("this",),
                 post=lambda c: [("size", S(c.this2).n == c.a(0)), ("kept", forall(iv(0), c.a(0), lambda k: IMP(k < S(c.this).n, at(S(c.this2), k) == at(S(c.this), k))))] + inv(c, False)),
        Contract(Q + "MaskAxis", pre=lambda c: [("cache", rng(c.this)), ("sorted", IMP(tri(c.this, "m_isSorted") == 1, strict2(S(c.this))))], loops=mask_loop, throws=lambda c: {"INTERNAL_ERROR": c.a(0).n != S(c.this).n},
                 post=lambda c: [("a cached 'sorted' is true of the kept samples", srt(c.ret)),
                                                                                                             ("only kept samples", c.sum(lambda k: IF(at(c.a(0), k) == 1, F1, F0))(0, c.a(0).n) == z3.ToReal(S(c.ret).n))]),
        Contract(Q + "ApplyOffset", pre=lambda c: invpre(c), modifies=("this",), post=lambda c: scaled(c, lambda a, b: b == a + r1(c)) + inv(c)),
        Contract(Q + "ShiftByWaveLength", sel=lambda f: len(f["params"]) == 3, modifies=("this",),
                 pre=lambda c: [("cache", rng(c.a(0))), ("sorted", srt(c.a(0)))],
                 throws=lambda c: {"INTERNAL_ERROR": OR(c.a(1).r < 0, AND(c.a(2) != 0, c.a(2) != 1))},
                 post=lambda c: [("same size", S(c.this2).n == S(c.a(0)).n),
                                 ("scaled by the factor", forall(iv(0), S(c.this2).n, lambda k: IF(c.a(1).r == 0, at(S(c.this2), k) == at(S(c.a(0)), k),
                                  IF(c.a(2) == 0, at(S(c.this2), k) == at(S(c.a(0)), k) * c.a(1).r, at(S(c.this2), k) * c.a(1).r == at(S(c.a(0)), k))))),
                                 ("a cached 'sorted' stays true", srt(c.this2))]),
        Contract(Q + "isSorted", pre=lambda c: [("cache", rng(c.this)), ("the cache is right", srt(c.this))],
                 modifies=("this",), post=lambda c: [("sorted means strictly increasing", c.ret == strict(S(c.this))), ("samples unchanged", same(S(c.this), S(c.this2)))] + inv(c, False)),
        Contract(Q + "CheckLoglambdaSampling", modifies=("this",), usable=True, pre=lambda c: [("two samples", S(c.this).n >= 2), ("positive", pos(S(c.this))), ("increasing", strict2(S(c.this)))],
                 post=lambda c: [("regular within 10 percent of the first step", c.ret == regular(c, S(c.this))), ("recorded", tri(c.this2, "m_isLogSampled") == IF(c.ret, iv(1), iv(0))),
                                 ("mean step", IMP(c.ret, c.this2.get("m_regularLogSamplingStep").r == ln(c, at(S(c.this), S(c.this).n - 1) / at(S(c.this), 0)) / (S(c.this).n - 1))),
                                 ("samples unchanged", same(S(c.this), S(c.this2)))]),
        Contract(B + "operator[]", sel=lambda f: not f.get("const"), modifies=("this",), name="CSpectrumAxis::operator[] (non const)", pre=lambda c: [("in bounds", AND(c.a(0) >= 0, c.a(0) < S(c.this).n))],
                 post=lambda c: [("caches dropped", AND(tri(c.this2, "m_isSorted") == 2, tri(c.this2, "m_isLogSampled") == 2))], **spec),
        Contract(B + "setSamplesVector", modifies=("this",), post=lambda c: [("caches dropped", AND(tri(c.this2, "m_isSorted") == 2, tri(c.this2, "m_isLogSampled") == 2)), ("samples", same(S(c.this2), c.a(0)))], **spec),
        Contract(B + "clear", modifies=("this",), post=lambda c: [("caches dropped", AND(tri(c.this2, "m_isSorted") == 2, tri(c.this2, "m_isLogSampled") == 2)), ("empty", S(c.this2).n == 0)], **spec),
        Contract(B + "maskVector", throws=lambda c: {"INTERNAL_ERROR": c.a(0).n != c.a(1).n}, usable=False,
                 post=lambda c: [("keeps one value per selected sample", c.ret.n == c.sum(lambda k: IF(at(c.a(0), k) == 1, F1, F0))(0, c.a(0).n))]),
        Contract(Q + "GetMask", modifies=(1,), post=masked),
        Contract(Q + "IntersectMaskAndComputeOverlapFraction", pre=lambda c: [("a mask value per sample", c.a(1).get("m_Mask").n >= S(c.this).n)], post=overlap),
        Contract(Q + "GetLambdaRange", usable=True, post=lambda c: [("first and last sample", IF(S(c.this).n >= 2, AND(c.ret.get("m_Begin").r == at(S(c.this), 0), c.ret.get("m_End").r == at(S(c.this), S(c.this).n - 1)),
                                                                         AND(c.ret.get("m_Begin").r == 0, c.ret.get("m_End").r == 0)))]),
        Contract(Q + "ClampLambdaRange", modifies=(1,), pre=lambda c: [("increasing", strict2(S(c.this)))],
                 throws=lambda c: {"INVALID_WAVELENGTH_RANGE": OR(empty(c.a(0)), AND(S(c.this).n >= 2, clamp(c)[1] <= clamp(c)[0])), "INVALID_SPECTRUM_WAVELENGTH": AND(NOT(empty(c.a(0))), S(c.this).n < 2)},
                 post=lambda c: [("intersection with the axis", AND(c.a2(1).get("m_Begin").r == clamp(c)[0], c.a2(1).get("m_End").r == clamp(c)[1]))]),
        Contract(Q + "GetIndexAtWaveLength", usable=True, pre=lambda c: [("not empty", S(c.this).n >= 1), ("increasing", strict2(S(c.this)))], post=lambda c: idx_post(S(c.this), r1(c), c.ret)),
        Contract(Q + "GetIndexesAtWaveLengthRange", pre=lambda c: [("not empty", S(c.this).n >= 1), ("increasing", strict2(S(c.this)))],
                 post=lambda c: [("lower: " + n, p) for n, p in idx_post(S(c.this), c.a(0).get("m_Begin").r, c.ret.get("m_Begin"))] + [("upper: " + n, p) for n, p in idx_post(S(c.this), c.a(0).get("m_End").r, c.ret.get("m_End"))]),
        Contract(Q + "GetResolution", pre=lambda c: [("increasing", strict2(S(c.this)))],
                 post=lambda c: [("zero below two samples", IMP(S(c.this).n < 2, c.ret.r == 0)), ("a distance of neighbours", IMP(S(c.this).n >= 2, exists(iv(1), S(c.this).n, lambda k: AND(c.ret.r == at(S(c.this), k) - at(S(c.this), k - 1),
                                  IMP(r1(c) < 0, k == 1), IMP(AND(r1(c) >= 0, r1(c) >= at(S(c.this), 0), r1(c) <= at(S(c.this), S(c.this).n - 1)), AND(at(S(c.this), k - 1) <= r1(c), r1(c) <= at(S(c.this), k)))))))]),
        Contract(Q + "GetMeanResolution", sel=lambda f: len(f["params"]) == 1, pre=lambda c: [("range in the axis", AND(c.a(0).get("m_Begin") >= 0, c.a(0).get("m_End") < S(c.this).n))],
                 post=lambda c: [("mean distance of neighbours", IF(c.a(0).get("m_End") - c.a(0).get("m_Begin") < 1, c.ret.r == 0,
                                  c.ret.r * z3.ToReal(c.a(0).get("m_End") - c.a(0).get("m_Begin")) == c.sum(lambda k: at(S(c.this), k + 1) - at(S(c.this), k))(c.a(0).get("m_Begin"), c.a(0).get("m_End"))))]),
    ]


def mask_loop(c, lc):
    """the kept samples stay below the samples still to come"""
    v, on = S(c.this), tri(c.this, "m_isSorted") == 1
    out = []
    for h, _ in lc.vecs():
        if lc.i is None or h.elty is None or h.elty.k != "float":
            continue
        out.append(("kept below the rest", IMP(on, forall(iv(0), h.n, lambda k: forall(lc.i, v.n, lambda j: at(h, k) < at(v, j))))))
        out.append(("kept increasing", IMP(on, forall(iv(0), h.n - 1, lambda k: at(h, k) < at(h, k + 1)))))
    return out
