"""C18: line profiles: shape, area, derivatives."""
from vc.spec import *

FILES = ["line/lineprofileSYM.cpp", "line/lineprofileLOR.cpp", "line/lineprofileASYM.cpp", "line/lineprofileASYMFIT.cpp", "line/lineprofileSYMIGM.cpp", "spectrum/fluxcorrectionmeiksin.cpp"]
HARNESS = "c18"
RULE = "random positions, widths and shape parameters; derivatives compared with central differences, areas with numerical integrals"
ASSUMPTIONS = ["exp, erf, sqrt and pow are uninterpreted: that the stated closed forms are the derivatives and integrals of the profile is calculus, cross-checked numerically by the harness",
               "positive width; a non-negative asymmetry for the 'mode' centering",
               "the flux of an IGM-extinguished profile that overlaps Lyman alpha is not stated (known finding)"]
N = "NSEpic::"
A = N + "CLineProfileASYM::"
G = N + "CLineProfileSYMIGM::"


def uf(c, n, x):
    return c.W.uf(n, R, R)(z3.simplify(x) if z3.is_expr(x) else x)


def ex(c, x):
    return c.W.uf("exp", R, R)(x)


def sq(c, x):
    return c.W.uf("sqrt", R, R)(x)


def dbl(s):
    from fractions import Fraction
    f = Fraction(s)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


PI = dbl("3.141592653589793")


def cube(x):
    return x * x * x


def pw(c, x, y):
    return c.W.uf("pow", R, R, R)(x, y)


def g(c):
    x, x0, s = [c.a(k).r for k in range(3)]
    return x, x0, s, (x - x0) / s


def pre(c):
    return [("positive width", c.a(2).r > 0)]


def gauss(c):
    x, x0, s, u = g(c)
    return ex(c, -(u * u) / 2)


# ---- skewed gaussian ----
def par(c):
    t = c.this
    return t.get("m_asym_sigma_coeff").r, t.get("m_asym_alpha").r, t.get("m_asym_delta").r, t.get("m_centeringMethod")


def apre(c, s=2):
    k, al, de, m = par(c)
    return [("positive width", c.a(s).r > 0), ("positive width coefficient", k > 0), ("positive asymmetry for the mode", IMP(is_(c, "mode"), al > 0))]


def is_(c, name):
    return par(c)[3] == c.W.strlit(name)


def muz(c):
    k, al, de, m = par(c)
    return al / sq(c, 1 + al * al) * sq(c, 2 / PI)


def skewmode(c):
    return c.W.uf("skew_mode", R, R)(par(c)[1])


def xpre(c):
    # verifying the definition itself: skew_mode(alpha) names the closed form of the mode
    from vc.contract import VCtx
    return apre(c, 1) + ([("definition of the mode", skewmode(c) == mode(c))] if isinstance(c, VCtx) else [])


def mode(c):
    k, al, de, m = par(c)
    d = al / sq(c, 1 + al * al)
    mz = muz(c)
    g1 = (4 - PI) / 2 * cube(d * sq(c, 2 / PI)) / pw(c, 1 - 2 * d * d / PI, z3.RealVal("3/2"))
    return mz - g1 * sq(c, 1 - mz * mz) / 2 - ex(c, -2 * PI / al) / 2


def badconf(c):
    return AND(is_(c, "none"), par(c)[2] != 0)


def cases(c, f):
    """one clause per centering"""
    k, al, de, m = par(c)
    return [("centering " + n, IMP(is_(c, n), f(sh))) for n, sh in (("none", z3.RealVal(0)), ("mean", muz(c)), ("mode", skewmode(c)))]


def xsurc_post(c):
    k, al, de, m = par(c)
    xc, s = c.a(0).r, c.a(1).r
    return [("scaled width", c.a2(1).r == k * s)] + \
        cases(c, lambda m0: AND(c.ret.r == m0, c.a2(2).r == (xc + k * s * m0 + de) / (k * s)))


def U(c, m0):
    x, x0, s, _ = g(c)
    k, al, de, m = par(c)
    return (x - x0 + k * s * m0 + de) / (k * s)


def skew(c, u):
    al = par(c)[1]
    return 1 + c.W.uf("erf", R, R)(al / sq(c, z3.RealVal(2)) * u)


def aval(c, m0):
    u = U(c, m0)
    return c.ret.r == ex(c, -(u * u) / 2) * skew(c, u)


def adx0(c, m0):
    k, al, de, m = par(c)
    s = k * c.a(2).r
    u = U(c, m0)
    # d/dx0 of exp(-u^2/2) (1+erf(al u/sqrt 2)), du/dx0 = -1/s
    return c.ret.r == u / s * ex(c, -(u * u) / 2) * skew(c, u) - 2 * al / sq(c, 2 * PI) / s * ex(c, -(1 + al * al) / 2 * (u * u))


def ads(c, m0):
    k, al, de, m = par(c)
    s = k * c.a(2).r
    u = U(c, m0)
    du = k * (m0 - u) / s
    return c.ret.r == ex(c, -(u * u) / 2) * (k * al * sq(c, z3.RealVal(2)) / (s * sq(c, PI)) * (m0 - u) * ex(c, -(u * u) * (al * al) / 2)) + \
        k * (u * u / s - m0 * u / s) * ex(c, -(u * u) / 2) * skew(c, u)


def nanpar(c):
    t = c.this
    return OR(*[kof(t.get(n)) == NAN for n in ("m_asym_sigma_coeff", "m_asym_alpha", "m_asym_delta")])


# ---- IGM-extinguished gaussian ----
def noigm(c):
    return c.this.get("m_igmCorrectionMeiksin").null


def igz(c):
    z = c.this.get("m_redshift").r
    i = c.this.get("m_igmidx")
    return z, IF(i != -1, i, iv(3))


def corr(c, x):
    z, i = igz(c)
    return c.W.uf("igm_transmission", R, I, R, R)(z, i, x / (1 + z))


def dcorr(c, x):
    z, i = igz(c)
    return c.W.uf("igm_slope", R, I, R, R)(z, i, x / (1 + z))


def gpre(c):
    return [("positive width", c.a(2).r > 0), ("redshift above -1", c.this.get("m_redshift").r > -1), ("line above 0", c.a(1).r > 0)]


def due(c):
    return {"INTERNAL_ERROR": noigm(c)}


O = dict(assume_div=True)


def contracts():
    S = N + "CLineProfileSYM::"
    L = N + "CLineProfileLOR::"
    M = N + "CSpectrumFluxCorrectionMeiksin::"
    sx = dict(usable=True)
    out = [
        Contract(S + "GetLineProfileVal", pre=pre, post=lambda c: [("gaussian", c.ret.r == gauss(c))], **sx),
        Contract(S + "GetLineFlux", post=lambda c: [("area of the gaussian", c.ret.r == c.a(2).r * c.a(1).r * sq(c, 2 * PI))], **sx),
        Contract(S + "GetLineProfileDerivX0", pre=pre, post=lambda c: [("derivative with respect to the centre", c.ret.r == g(c)[3] / g(c)[2] * gauss(c))], **sx),
        Contract(S + "GetLineProfileDerivSigma", pre=pre, post=lambda c: [("derivative with respect to the width", c.ret.r == g(c)[3] * g(c)[3] / g(c)[2] * gauss(c))], **sx),
        Contract(L + "GetLineProfileVal", pre=pre, post=lambda c: [("lorentzian", c.ret.r == 1 / (1 + g(c)[3] * g(c)[3]))]),
        Contract(L + "GetLineFlux", post=lambda c: [("area of the lorentzian", c.ret.r == c.a(2).r * c.a(1).r * PI)]),
        Contract(L + "GetNSigmaSupport", post=lambda c: [("twice the nominal support", c.ret.r == 2 * c.this.get("m_nsigmasupport").r)]),
        Contract(L + "GetLineProfileDerivX0", throws=lambda c: {"INTERNAL_ERROR": z3.BoolVal(True)}),
        Contract(L + "GetLineProfileDerivSigma", throws=lambda c: {"INTERNAL_ERROR": z3.BoolVal(True)}),
        Contract(A + "isValid", nonfinite=("m_asym",), post=lambda c: [("no parameter is NaN", c.ret == NOT(nanpar(c)))]),
        Contract(A + "GetXSurc", opts=O, usable=True, modifies=(1, 2), pre=xpre, post=xsurc_post, throws=lambda c: {"INTERNAL_ERROR": badconf(c)}),
        Contract(A + "GetLineProfileVal", opts=O, pre=apre, post=lambda c: cases(c, lambda m0: aval(c, m0)), throws=lambda c: {"INTERNAL_ERROR": badconf(c)}),
        Contract(A + "GetLineProfileDerivX0", opts=O, pre=apre, post=lambda c: cases(c, lambda m0: adx0(c, m0)), throws=lambda c: {"INTERNAL_ERROR": badconf(c)}),
        Contract(A + "GetLineProfileDerivSigma", opts=O, pre=apre, post=lambda c: cases(c, lambda m0: ads(c, m0)), throws=lambda c: {"INTERNAL_ERROR": badconf(c)}),
        Contract(A + "GetLineFlux", post=lambda c: [("area of the skewed gaussian", c.ret.r == c.a(2).r * c.a(1).r * par(c)[0] * sq(c, 2 * PI))]),
        Contract(A + "GetNSigmaSupport", post=lambda c: [("support of the widened profile", c.ret.r == c.this.get("m_nsigmasupport").r * par(c)[0] * c.this.get("m_constSigma").r)]),
        Contract(N + "CLineProfileASYMFIT::SetAsymParams", modifies=("this",), nonfinite=("params", "m_asym"), warns=("ASYMFIT_NAN_PARAMS",), post=lambda c: [
            ("parameters set", AND(*[feq(c.this2.get("m_asym_" + a), c.a(0).get(b)) for a, b in (("sigma_coeff", "sigma"), ("alpha", "alpha"), ("delta", "delta"))])),
            ("NaN is reported", c.warned("ASYMFIT_NAN_PARAMS") == OR(*[kof(c.a(0).get(b)) == NAN for b in ("sigma", "alpha", "delta")]))]),
        Contract(N + "CLineProfileASYMFIT::resetParams", modifies=("this",), post=lambda c: [
            ("symmetric default", AND(c.this2.get("m_asym_sigma_coeff").r == 2, c.this2.get("m_asym_alpha").r == 0, c.this2.get("m_asym_delta").r == 0))]),
        # IGM
        Contract(M + "getCorrection", usable=True, sel=lambda f: len(f["params"]) == 3 and f["params"][0]["n"] == "redshift", trusted="a function of redshift, curve and rest wavelength (its table look-up is C10's)",
                 post=lambda c: [("t", c.ret.r == c.W.uf("igm_transmission", R, I, R, R)(c.a(0).r, c.a(1), c.a(2).r))]),
        Contract(M + "getCorrectionAndDerivLbdaRest", usable=True, trusted="the same transmission and its slope in rest wavelength (C10)",
                 post=lambda c: [("t", AND(c.ret.get('0').r == c.W.uf("igm_transmission", R, I, R, R)(c.a(0).r, c.a(1), c.a(2).r),
                                           c.ret.get('1').r == c.W.uf("igm_slope", R, I, R, R)(c.a(0).r, c.a(1), c.a(2).r)))]),
        Contract(G + "GetLineProfileVal", pre=gpre, throws=due, post=lambda c: [("gaussian times the transmission at the observed position", c.ret.r == gauss(c) * corr(c, c.a(0).r))]),
        Contract(G + "GetLineProfileDerivSigma", pre=gpre, throws=due, post=lambda c: [
            ("derivative with respect to the width", c.ret.r == g(c)[3] * g(c)[3] / g(c)[2] * gauss(c) * corr(c, c.a(0).r))]),
        Contract(G + "GetLineProfileDerivX0", pre=gpre, throws=due, post=lambda c: [
            ("product rule, the rest wavelength moving with the redshift", c.ret.r == g(c)[3] / g(c)[2] * gauss(c) * corr(c, c.a(0).r) - gauss(c) * (c.a(0).r / (1 + igz(c)[0]) / c.a(1).r) * dcorr(c, c.a(0).r))]),
        Contract(G + "SetSymIgmParams", modifies=("this",), nonfinite=("params", "m_redshift"), post=lambda c: [("set", AND(feq(c.this2.get("m_redshift"), c.a(0).get("m_redshift")), c.this2.get("m_igmidx") == c.a(0).get("m_igmidx")))]),
        Contract(G + "resetParams", modifies=("this",), nonfinite=("m_redshift",), post=lambda c: [
            ("reset only when the curve is being fitted", IF(c.this.get("m_igmFit"), AND(c.this2.get("m_igmidx") == -1, kof(c.this2.get("m_redshift")) == NAN),
                                                               AND(c.this2.get("m_igmidx") == c.this.get("m_igmidx"), feq(c.this2.get("m_redshift"), c.this.get("m_redshift")))))]),
    ]
    return out


def feq(a, b):
    return AND(kof(a) == kof(b), IMP(kof(a) == 0, a.r == b.r))
