"""C12: flux axis arithmetic, smoothing windows and the continuum split."""
from vc.spec import *
from vc.values import IterV, StructV
from vc.theory import *
from vc.contract import fresh

FILES = ["spectrum/fluxaxis.cpp", "spectrum/axis.cpp", "continuum/irregularsamplingmedian.cpp", "spectrum/spectrum.cpp", "spectrum/noiseaxis.cpp", "spectrum/spectralaxis.cpp"]
HARNESS = "c12"
RULE = "random fluxes with zero borders, isolated spikes and plateaus; every window, width and cycle count"
ASSUMPTIONS = ["CMedian::Find is a function of the samples of its window (its value is checked by the native harness only)",
               "half widths are not negative, reflections are not longer than the reflected part (callers' obligation)"]
F = "NSEpic::CSpectrumFluxAxis::"
CM = "NSEpic::CContinuumIrregularSamplingMedian::"
MED = z3.Function("median_of", z3.ArraySort(I, R), I, I, R)


def smp(o):
    return o.get("m_Samples")


def err(o):
    return smp(o.get("m_StdError"))


def lo(a, b):
    return IF(a < b, a, b)


def hi(a, b):
    return IF(a > b, a, b)


def w(c, k):
    e = err(c.this)
    return 1 / (at(e, k) * at(e, k))


def msd(c):
    m, f = c.a(0).get("m_Mask"), smp(c.this)
    mk = lambda k: z3.ToReal(sel(m.el, k)) if sel(m.el, k).sort() == I else sel(m.el, k)
    S = lambda t: c.sum(t)(0, f.n)
    return (S(lambda k: mk(k) * at(f, k) * w(c, k)), S(lambda k: mk(k) * at(f, k) * at(f, k) * w(c, k)), S(lambda k: mk(k) * w(c, k)), S(lambda k: mk(k) * w(c, k) * w(c, k)))


def msd_post(c):
    s, s2, W, W2 = msd(c)
    m, d = c.a2(1), c.a2(2)
    return [("answer", c.ret == (W > 0)), ("weighted mean", IMP(c.ret, m.r * W == s)),
            ]


def halves(c):
    h, n = c.a(0), smp(c.this).n
    return AND(h != 0, n >= h + 1)


def smooth_post(kind):
    def post(c):
        f, g, h = smp(c.this), smp(c.this2), c.a(0)
        n = f.n
        a = lambda i: hi(iv(0), i - h)
        b = lambda i: lo(n - 1, i + h) + 1
        if kind == "mean":
            val = lambda i: at(g, i) * z3.ToReal(b(i) - a(i)) == c.sum(lambda k: at(f, k))(a(i), b(i))
        else:
            val = lambda i: at(g, i) == MED(f.el.r, a(i), b(i))
        return [("done or nothing to do", c.ret == halves(c)), ("same size", g.n == n), ("untouched", IMP(NOT(c.ret), same(f, g))),
                ("%s of the window" % kind, IMP(c.ret, forall(iv(0), n, val)))]
    return post


def win_post(kind):
    def post(c):
        y, n, r = c.a(0), c.a(1), c.ret
        half = n / 2
        rest = n - 2 * half
        a = lambda i: hi(iv(0), i - half)
        b = lambda i: lo(i + half + rest, y.n)
        if kind == "mean":
            val = lambda i: at(r, i) * z3.ToReal(b(i) - a(i)) == c.sum(lambda k: at(y, k))(a(i), b(i))
        else:
            val = lambda i: at(r, i) == MED(y.el.r, a(i), b(i))
        return [("same size", r.n == y.n), ("%s of the window" % kind, forall(iv(0), y.n, val))]
    return post


def two_iters(ex, st, thislv, argl):
    """begin and end of one vector"""
    fn = ex.prog
    v = st.mem[argl[0].cell]
    ty = [f for f in fn.find(CM + "EvenMirror") if f.get("body") is not None][0]["ret"]
    cell = ex.cell(st, ty, fresh(ex.W, "samples", ty))
    for k, nm in ((0, "begin"), (1, "end")):
        st.mem[argl[k].cell] = IterV(cell, z3.Int("it_" + nm), False, None)


def mir_pre(c):
    v, b = c.it(0)
    _, e = c.it(1)
    n = c.a(2)
    return [("range", AND(0 <= b, b <= e, e <= v.n)), ("reflection inside", AND(0 <= n, n <= e - b))]


def mir_post(even):
    def post(c):
        v, b = c.it(0)
        _, e = c.it(1)
        n, r = c.a(2), c.ret
        m = e - b
        L = (lambda k: at(v, b + n - 1 - k)) if even else (lambda k: 2 * c.a(3).r - at(v, b + n - 1 - k))
        Rr = (lambda k: at(v, e - 1 - (k - n - m))) if even else (lambda k: 2 * c.a(4).r - at(v, e - 1 - (k - n - m)))
        return [("size", r.n == m + 2 * n), ("inside kept", forall(n, n + m, lambda k: at(r, k) == at(v, b + k - n))),
                ("left reflection", forall(iv(0), n, lambda k: at(r, k) == L(k))), ("right reflection", forall(n + m, r.n, lambda k: at(r, k) == Rr(k)))]
    return post


def raw(s):
    return s.get("m_RawFluxAxis")


def fe_post(c):
    f = smp(c.a(0))
    k0, k1 = c.a2(1), c.a2(2)
    some = exists(iv(0), f.n, lambda k: at(f, k) != 0)
    nz = lambda k: IF(at(f, k) != 0, z3.RealVal(1), z3.RealVal(0))
    return [("first sample that is not null", IMP(some, AND(0 <= k0, k0 < f.n, at(f, k0) != 0, forall(iv(0), k0, lambda k: at(f, k) == 0)))),
            ("last sample that is not null", IMP(some, AND(0 <= k1, k1 < f.n, at(f, k1) != 0, forall(k1 + 1, f.n, lambda k: at(f, k) == 0)))),
            ("eleven samples at least", IMP(c.ret, k1 - k0 >= 10)),
            ("all null", IMP(NOT(some), AND(k0 == c.a(1), k1 == c.a(2), NOT(c.ret)))),
            ("more than ten samples: kept", IMP(c.ret, exists(iv(0), f.n, lambda j: AND(at(f, j) != 0, c.sum(nz)(0, j) >= 10)))),
            ("ten samples at most: refused", IMP(NOT(c.ret), c.sum(nz)(0, f.n) <= 10))]


def pc_pre(c):
    s, f = c.a(0), smp(raw(c.a(0)))
    return [("resolution", c.a(2).r > 0), ("one flux per wavelength", smp(s.get("m_SpectralAxis")).n == f.n), ("room for the reflections", f.n <= 10 ** 8), ("one error per flux", smp(raw(s).get("m_StdError")).n == f.n)]


def pc_post(c):
    f, g = smp(raw(c.a(0))), smp(c.a2(1))
    nul = lambda j: OR(forall(iv(0), j + 1, lambda k: at(f, k) == 0), forall(j, f.n, lambda k: at(f, k) == 0))
    return [("one value per sample", IMP(c.ret, g.n == f.n)), ("null borders untouched", IMP(c.ret, forall(iv(0), f.n, lambda j: IMP(nul(j), at(g, j) == at(f, j)))))]


def ec_pre(c):
    s = c.this
    f = smp(raw(s))
    x = smp(s.get("m_SpectralAxis"))
    return [("increasing wavelengths", AND(x.n >= 2, at(x, 0) < at(x, x.n - 1))), ("one flux per wavelength", smp(s.get("m_SpectralAxis")).n == f.n), ("room for the reflections", f.n <= 10 ** 8), ("one error per flux", smp(raw(s).get("m_StdError")).n == f.n)]


def ec_post(c):
    s, t = c.this, c.this2
    f, k, w_ = smp(raw(t)), smp(t.get("m_ContinuumFluxAxis")), smp(t.get("m_WithoutContinuumFluxAxis"))
    return [("raw flux untouched", same(smp(raw(s)), f)), ("same sizes", AND(k.n == f.n, w_.n == f.n)), ("continuum plus the rest is the flux", forall(iv(0), f.n, lambda i: at(k, i) + at(w_, i) == at(f, i)))]


def nz_loop(c, lc):
    """the running count of the samples that are not null"""
    f = smp(c.a(0))
    k0 = lc.head.mem[c.argl[1].cell]
    return [("count", AND(z3.ToReal(h) == c.sum(lambda k: IF(at(f, k) != 0, z3.RealVal(1), z3.RealVal(0)))(0, lc.i), h <= 10, h <= hi(iv(0), lc.i - k0))) for h, e in lc.ints if lc.i is not None and not h.eq(lc.i)]


def mr_loop(c, lc):
    """the running sum of the steps is the distance covered so far"""
    x = smp(c.this)
    return [("telescope", h == at(x, lc.i) - at(x, lc.i0)) for h, e in lc.fls if lc.i is not None]


def contracts():
    return [
        Contract(F + "Subtract", usable=True, modifies=(("this", "m_Samples"),), throws=lambda c: {"INTERNAL_ERROR": smp(c.a(0)).n != smp(c.this).n},
                 post=lambda c: [("difference", AND(smp(c.this2).n == smp(c.this).n, forall(iv(0), smp(c.this).n, lambda k: at(smp(c.this2), k) == at(smp(c.this), k) - at(smp(c.a(0)), k)))), ("true", c.ret)]),
        Contract(F + "Invert", modifies=(("this", "m_Samples"),), post=lambda c: [("opposite", AND(smp(c.this2).n == smp(c.this).n, forall(iv(0), smp(c.this).n, lambda k: at(smp(c.this2), k) == -at(smp(c.this), k)))), ("true", c.ret)]),
        Contract(F + "ComputeRMSDiff", throws=lambda c: {"INTERNAL_ERROR": smp(c.a(0)).n != smp(c.this).n}, pre=lambda c: [("not empty", smp(c.this).n > 0)],
                 post=lambda c: [("root mean square", AND(c.ret.r >= 0, c.ret.r * c.ret.r == c.sum(lambda k: (at(smp(c.this), k) - at(smp(c.a(0)), k)) * (at(smp(c.this), k) - at(smp(c.a(0)), k)) / z3.ToReal(smp(c.this).n))(0, smp(c.this).n)))]),
        Contract(F + "ComputeMeanAndSDev", modifies=(1, 2), throws=lambda c: {"INTERNAL_ERROR": c.a(0).get("m_Mask").n != smp(c.this).n},
                 pre=lambda c: [("one error per sample", err(c.this).n == smp(c.this).n), ("no null error", forall(iv(0), smp(c.this).n, lambda k: at(err(c.this), k) != 0))], post=msd_post),
        Contract(F + "computeMaxAbsValue", pre=lambda c: [("range", AND(0 <= c.a(0), c.a(0) <= c.a(1), c.a(1) < smp(c.this).n))],
                 post=lambda c: [("reached", exists(c.a(0), c.a(1) + 1, lambda k: c.ret.r == absr(at(smp(c.this), k)))), ("largest", forall(c.a(0), c.a(1) + 1, lambda k: c.ret.r >= absr(at(smp(c.this), k))))]),
        Contract("NSEpic::CMedian<double>::Find", usable=True, sel=lambda f: len(f["params"]) == 2, trusted="a function of the samples of the window; that it is their median is checked by the native harness (bounded)",
                 pre=lambda c: [("window not empty", AND(c.it(0)[1] >= 0, c.it(0)[1] < c.it(1)[1], c.it(1)[1] <= c.it(0)[0].n))], post=lambda c: [("median", c.ret.r == MED(c.it(0)[0].el.r, c.it(0)[1], c.it(1)[1]))]),
        Contract(F + "ApplyMeanSmooth", modifies=(("this", "m_Samples"),), pre=lambda c: [("half width", c.a(0) >= 0)], post=smooth_post("mean")),
        Contract(F + "ApplyMedianSmooth", modifies=(("this", "m_Samples"),), pre=lambda c: [("half width", c.a(0) >= 0)], post=smooth_post("median")),
        Contract(CM + "MeanSmooth", usable=True, pre=lambda c: [("width", c.a(1) >= 1)], post=win_post("mean")),
        Contract(CM + "MedianSmooth", usable=True, pre=lambda c: [("width", c.a(1) >= 1)], post=win_post("median")),
        Contract(CM + "EvenMirror", usable=True, setup=two_iters, pre=mir_pre, post=mir_post(True)),
        Contract(CM + "OddMirror", usable=True, setup=two_iters, pre=mir_pre, post=mir_post(False)),
        Contract(CM + "FindEffectiveSpectrumBorder", usable=True, modifies=(1, 2), post=fe_post, loops=nz_loop),
        Contract("NSEpic::CSpectrumSpectralAxis::GetMeanResolution", sel=lambda f: len(f["params"]) == 0, usable=True, loops=mr_loop,
                 post=lambda c: [("mean step", IMP(smp(c.this).n >= 2, c.ret.r == (at(smp(c.this), smp(c.this).n - 1) - at(smp(c.this), 0)) / z3.ToReal(smp(c.this).n - 1))), ("no step", IMP(smp(c.this).n < 2, c.ret.r == 0))]),
        Contract(CM + "FitBorder", usable=True, trusted="GSL's weighted linear fit, or the border sample: some finite number (its value is not specified)", pre=lambda c: [("indexes", AND(0 <= c.a(1), c.a(1) < smp(raw(c.a(0))).n, 0 <= c.a(2), c.a(2) < smp(raw(c.a(0))).n))],
                 post=lambda c: []),
        Contract(CM + "ProcessRemoveContinuum", usable=True, modifies=(1,), pre=pc_pre, post=pc_post),
        Contract("NSEpic::CSpectrum::EstimateContinuum", modifies=("this",), throws=lambda c: {"INTERNAL_ERROR": z3.BoolVal(True)}, maythrow=("INTERNAL_ERROR",), pre=ec_pre, post=ec_post),
    ]
