"""C23: spectra are validated and repaired exactly on their wavelength range."""
from vc.spec import *
from vc.values import kof
from specs.c26 import idx_post, rng as crng, srt

FILES = ["spectrum/fluxaxis.cpp", "spectrum/axis.cpp", "spectrum/spectrum.cpp", "spectrum/noiseaxis.cpp", "spectrum/spectralaxis.cpp"]
HARNESS = "c23"
RULE = "random spectra with NaN, infinite, null, negative and tiny samples anywhere, the borders included; ranges that start or end on, between or outside samples"
ASSUMPTIONS = ["over the reals no positive noise is so small that its inverse square overflows (covered by the native harness)", "finite fluxes are smaller than the largest double"]
F = "NSEpic::CSpectrumFluxAxis::"
NX = "NSEpic::CSpectrumNoiseAxis::"
SP = "NSEpic::CSpectrum::"
MAXD = z3.RealVal(17976931348623157 * 10 ** 292)
MIND = z3.RealVal(22250738585072014) / z3.RealVal(10 ** 324)


def feq(a, b):
    return AND(kof(a) == kof(b), IMP(kof(a) == 0, a.r == b.r))


def e_(v, k):
    return sel(v.el, k)


def smp(o):
    return o.get("m_Samples")


def err(o):
    return smp(o.get("m_StdError"))


def fin(x):
    return kof(x) == 0


def okn(v, k):
    return AND(fin(e_(v, k)), e_(v, k).r >= MIND)


def okf(v, k):
    return fin(e_(v, k))


def bits(c, f):
    n = smp(c.this).n
    return [("one answer per sample", c.ret.n == n), ("valid", forall(iv(0), n, lambda k: sel(c.ret.el, k) == f(smp(c.this), k)))]


def both(c, k, o=None):
    o = o or c.this
    return AND(okn(err(o), k), okf(smp(o), k))


def rng(c):
    return c.a(0), c.a(1)


def keptf(c, k):
    return AND(feq(e_(smp(c.this2), k), e_(smp(c.this), k)), feq(e_(err(c.this2), k), e_(err(c.this), k)))


def cor_post(c):
    a, b = rng(c)
    n = smp(c.this).n
    bad = lambda k: NOT(both(c, k))
    f2, e2 = smp(c.this2), err(c.this2)
    coef = c.a(2).r
    least = z3.Real("least")
    return [("sizes", AND(f2.n == n, e2.n == n)), ("answer", c.ret == exists(a, b, bad)),
            ("outside the range untouched", forall(iv(0), n, lambda k: IMP(OR(k < a, k >= b), keptf(c, k)))),
            ("valid samples untouched", forall(a, b, lambda k: IMP(both(c, k), keptf(c, k)))),
            ("repaired flux below every valid one", forall(a, b, lambda j: IMP(bad(j), AND(fin(e_(f2, j)), forall(a, b, lambda k: IMP(both(c, k), coef * e_(f2, j).r <= absr(e_(smp(c.this), k).r))))))),
            ("repaired flux is the smallest over the factor", forall(a, b, lambda j: IMP(bad(j), exists(a, b, lambda k: AND(both(c, k), coef * e_(f2, j).r == absr(e_(smp(c.this), k).r)))))),
            ("repaired noise above every valid one", forall(a, b, lambda j: IMP(bad(j), AND(fin(e_(e2, j)), forall(a, b, lambda k: IMP(both(c, k), e_(e2, j).r >= coef * e_(err(c.this), k).r)))))),
            ("repaired noise is the largest times the factor", forall(a, b, lambda j: IMP(bad(j), exists(a, b, lambda k: AND(both(c, k), e_(e2, j).r == coef * e_(err(c.this), k).r)))))]


def cor_pre(c):
    a, b = rng(c)
    n = smp(c.this).n
    return [("one error per sample", err(c.this).n == n), ("range", AND(0 <= a, a <= b, b <= n)), ("factor", c.a(2).r >= 1),
            ("finite fluxes below the largest double", forall(iv(0), n, lambda k: IMP(okf(smp(c.this), k), absr(e_(smp(c.this), k).r) < MAXD)))]


def cor_loop(c, lc):
    """running extremes of the valid samples"""
    if lc.i is None:
        return []
    a = c.a(0)
    out = []
    for h, e in lc.fls:
        for v, low, val in ((-MAXD, False, lambda k: e_(err(c.this), k).r), (MAXD, True, lambda k: absr(e_(smp(c.this), k).r))):
            if z3.is_true(z3.simplify(e == v)):
                some = exists(a, lc.i, lambda k: both(c, k))
                out.append(("bound", forall(a, lc.i, lambda k: IMP(both(c, k), h <= val(k) if low else h >= val(k)))))
                out.append(("reached", OR(h == v, exists(a, lc.i, lambda k: AND(both(c, k), h == val(k))))))
                out.append(("side", AND(h <= MAXD, h >= 0) if low else OR(h == v, h > 0)))
    return out


def val_loop(ok, zero=None):
    def f(c, lc):
        if lc.i is None:
            return []
        out = []
        for h, e in lc.ints:
            if not h.eq(lc.i):
                out.append(("count", AND(h >= 0, h <= lc.i - lc.i0, (h == 0) == forall(lc.i0, lc.i, lambda k: ok(c, k)))))
        for h, e in lc.bools:
            if zero:
                out.append(("flag", h == forall(lc.i0, lc.i, lambda k: zero(c, k))))
        return out
    return f


def x_(s):
    return smp(s.get("m_SpectralAxis"))


def raw(s):
    return s.get("m_RawFluxAxis")


def inr(c, k):
    x = x_(c.this)
    return AND(c.a(0).r <= at(x, k), at(x, k) <= c.a(1).r)


def val_pre(c):
    s = c.this
    x = x_(s)
    return [("raw type", s.get("m_spcType") == 1), ("increasing wavelengths", AND(x.n >= 1, strict2(x))), ("one flux and error per wavelength", AND(smp(raw(s)).n == x.n, err(raw(s)).n == x.n)),
            ("range meets the spectrum", AND(c.a(0).r <= c.a(1).r, c.a(0).r <= at(x, x.n - 1)))]


def cs_pre(c):
    s = c.this
    f = smp(raw(s))
    return val_pre(c) + [("cache", AND(crng(s.get("m_SpectralAxis")), srt(s.get("m_SpectralAxis")))), ("factor", c.a(2).r >= 1), ("finite fluxes below the largest double", forall(iv(0), f.n, lambda k: IMP(okf(f, k), absr(e_(f, k).r) < MAXD)))]


def cs_post(c):
    f, e, g, h = smp(raw(c.this)), err(raw(c.this)), smp(raw(c.this2)), err(raw(c.this2))
    n = f.n
    bad = lambda k: AND(inr(c, k), NOT(both(c, k, raw(c.this))))
    coef = c.a(2).r
    ok = lambda k: AND(inr(c, k), both(c, k, raw(c.this)))
    return [("sizes", AND(g.n == n, h.n == n)), ("answer", c.ret == exists(iv(0), n, bad)),
            ("type kept", c.this2.get("m_spcType") == c.this.get("m_spcType")),
            ("wavelengths kept", same(x_(c.this2), x_(c.this))),
            ("a repaired spectrum forgets its continuum", IMP(c.ret, NOT(c.this2.get("alreadyRemoved")))),
            ("valid or outside the range: untouched", forall(iv(0), n, lambda k: IMP(NOT(bad(k)), AND(feq(e_(g, k), e_(f, k)), feq(e_(h, k), e_(e, k)))))),
            ("repaired flux", forall(iv(0), n, lambda j: IMP(bad(j), AND(fin(e_(g, j)), exists(iv(0), n, lambda k: AND(ok(k), coef * e_(g, j).r == absr(e_(f, k).r))))))),
            ("repaired noise", forall(iv(0), n, lambda j: IMP(bad(j), AND(fin(e_(h, j)), exists(iv(0), n, lambda k: AND(ok(k), e_(h, j).r == coef * e_(e, k).r))))))]


def vs_pre(c):
    s = c.this
    x, f = x_(s), smp(raw(s))
    return [("raw type", s.get("m_spcType") == 1), ("cache", AND(crng(s.get("m_SpectralAxis")), srt(s.get("m_SpectralAxis")))), ("one error per flux", err(raw(s)).n == f.n),
            ("finite fluxes below the largest double", forall(iv(0), f.n, lambda k: IMP(okf(f, k), absr(e_(f, k).r) < MAXD)))]


def vs_post(c):
    x, g, h = x_(c.this2), smp(raw(c.this2)), err(raw(c.this2))
    r = c.a(0)
    ir = lambda k: AND(r.get("m_Begin").r <= at(x, k), at(x, k) <= r.get("m_End").r)
    return [("sizes", AND(x.n == g.n, x.n >= 2)), ("flux valid on the range", forall(iv(0), x.n, lambda k: IMP(ir(k), okf(g, k)))), ("noise valid on the range", forall(iv(0), x.n, lambda k: IMP(ir(k), okn(h, k)))),
            ("not all null", exists(iv(0), x.n, lambda k: AND(ir(k), e_(g, k).r != 0)))]


def contracts():
    NF = ("m_Samples",)
    return [
        Contract(NX + "checkNoise", usable=True, nonfinite=NF, opts=dict(opaque_mul=False), post=lambda c: bits(c, okn)),
        Contract(F + "checkFlux", usable=True, nonfinite=NF, post=lambda c: bits(c, okf)),
        Contract(F + "correctFluxAndNoiseAxis", usable=True, modifies=("this",), nonfinite=NF, pre=cor_pre, post=cor_post, loops=cor_loop,
                 throws=lambda c: {"SPECTRUM_CORRECTION_ERROR": NOT(exists(c.a(0), c.a(1), lambda k: both(c, k)))}),
        Contract("NSEpic::CSpectrumSpectralAxis::GetIndexAtWaveLength", usable=True, pre=lambda c: [("not empty", smp(c.this).n >= 1), ("increasing", strict2(smp(c.this)))], post=lambda c: idx_post(smp(c.this), c.a(0).r, c.ret)),
        Contract(SP + "ValidateFlux", usable=True, loops=val_loop(lambda c, k: okf(smp(raw(c.this)), k), lambda c, k: AND(okf(smp(raw(c.this)), k), e_(smp(raw(c.this)), k).r == 0)), nonfinite=("m_RawFluxAxis",), pre=val_pre, throws=lambda c: {"INVALID_SPECTRUM_FLUX": OR(exists(iv(0), x_(c.this).n, lambda k: AND(inr(c, k), NOT(okf(smp(raw(c.this)), k)))),
                 forall(iv(0), x_(c.this).n, lambda k: IMP(inr(c, k), AND(okf(smp(raw(c.this)), k), e_(smp(raw(c.this)), k).r == 0))))}),
        Contract(SP + "ValidateNoise", usable=True, loops=val_loop(lambda c, k: okn(err(raw(c.this)), k)), nonfinite=("m_RawFluxAxis",), pre=val_pre, throws=lambda c: {"INVALID_NOISE": exists(iv(0), x_(c.this).n, lambda k: AND(inr(c, k), NOT(okn(err(raw(c.this)), k))))}),
        Contract(SP + "correctSpectrum", usable=True, modifies=("this",), nonfinite=("m_RawFluxAxis",), pre=cs_pre, post=cs_post,
                 throws=lambda c: {"SPECTRUM_CORRECTION_ERROR": NOT(exists(iv(0), x_(c.this).n, lambda k: AND(inr(c, k), both(c, k, raw(c.this)))))}),
        Contract("NSEpic::CSpectrumSpectralAxis::isSorted", usable=True, pre=lambda c: [("cache", crng(c.this)), ("the cache is right", srt(c.this))], modifies=(("this", "m_isSorted"),),
                 post=lambda c: [("sorted means strictly increasing", c.ret == strict(smp(c.this))), ("cache right", AND(crng(c.this2), srt(c.this2))), ("samples unchanged", same(smp(c.this), smp(c.this2)))]),
        Contract("NSEpic::CLSF::checkAvailability", usable=True, trusted="either answer"),
        Contract(SP + "ValidateSpectrum", modifies=("this",), nonfinite=("m_RawFluxAxis",), anythrow=True, prelemmas=lambda c: [induct_strict(x_(c.this))], pre=vs_pre, post=vs_post),
    ]
