"""C25: line spread function: widths and normalised kernel."""
from vc.spec import *
from specs.c18 import dbl, sq

FILES = ["line/lineprofileSYM.cpp", "spectrum/spectralaxis.cpp", "spectrum/axis.cpp", "spectrum/LSF.cpp", "spectrum/LSFConstantResolution.cpp", "spectrum/LSFVariableWidth.cpp", "spectrum/LSF_NISPSIM_2016.cpp", "spectrum/LSF_NISPVSSPSF_201707.cpp"]
HARNESS = "c25"
RULE = "random widths, resolutions, tables, wavelengths inside and outside the range, clipping or not"
ASSUMPTIONS = ["tabulated wavelengths are strictly increasing (callers' obligation)", "positive wavelengths",
               "the sum of the kernel does not underflow (profile values are positive real numbers)"]
N = "NSEpic::"
CR, CW, VW, NS, NV = [N + "CLSFGaussian" + x + "::" for x in ("ConstantResolution", "ConstantWidth", "VariableWidth", "NISPSIM2016", "NISPVSSPSF201707")]


def clip(x, lo, hi):
    return IF(x < lo, lo, IF(x > hi, hi, x))


def lam(c):
    """the wavelength asked for, clipped to the default range on request"""
    x = c.a(0).r
    return IF(c.a(1), clip(x, LO, HI), x)


LO, HI = dbl("200"), dbl("30000")   # default spectral range of a line spread function


def F(c):
    return 1 / dbl("2.355")


def tab(c):
    return c.this.get("m_spcAxis").get("m_Samples"), c.this.get("m_width")


def arg(c):
    a = c.a(0).val
    return a.get("lambdas"), a.get("width")


def badsize(c):
    x, w = arg(c)
    return OR(w.n == 0, w.n != x.n)


def vpre(c):
    x, w = tab(c)
    return [("one width per wavelength", AND(x.n == w.n, x.n >= 1)), ("increasing", strict2(x)), ("cache", AND(*[AND(c.this.get("m_spcAxis").get(f).get("value") >= 0, c.this.get("m_spcAxis").get(f).get("value") <= 2) for f in ("m_isSorted", "m_isLogSampled")]))]


def vlam(c):
    x, w = tab(c)
    return IF(c.a(1), clip(c.a(0).r, at(x, 0), at(x, x.n - 1)), c.a(0).r)


def vdue(c):
    x, w = tab(c)
    return {"INSUFFICIENT_LSF_COVERAGE": AND(NOT(c.a(1)), OR(c.a(0).r < at(x, 0), c.a(0).r > at(x, x.n - 1)))}


def vpost(c):
    x, w = tab(c)
    l = vlam(c)
    return [("the tabulated width at a node", forall(iv(0), x.n, lambda k: IMP(at(x, k) == l, c.ret.r == at(w, k)))),
            ("linear between two nodes", forall(iv(0), x.n - 1, lambda k: IMP(AND(at(x, k) < l, l < at(x, k + 1)), c.ret.r == at(w, k) * (1 - (l - at(x, k)) / (at(x, k + 1) - at(x, k))) + at(w, k + 1) * ((l - at(x, k)) / (at(x, k + 1) - at(x, k))))))]


def prof(c, x, x0, s):
    return c.W.uf("profile", R, R, R, R)(x, x0, s)


def wid(c, l0):
    return c.W.uf("lsf_width", R, R)(l0)


def kernel(c):
    v, l0, k = c.a(0), c.a(1).r, c.ret
    p = lambda i: prof(c, at(v, i), l0, wid(c, l0))
    c.W.scales.append(1 / c.sum(p)(0, v.n))
    return [("one value per wavelength", k.n == v.n),
            ("sums to one", c.sum(lambda i: at(k, i))(0, k.n) == 1),
            ("proportional to the profile", forall(iv(0), v.n, lambda i: at(k, i) * c.sum(p)(0, v.n) == p(i)))]


def contracts():
    pos = lambda c: [("positive wavelength", c.a(0).r > 0)]
    isctor = lambda f: len(f["params"]) == 1 and f["params"][0]["t"].k != "ref"
    return [
        Contract(CW + "CLSFGaussianConstantWidth", sel=isctor, throws=lambda c: {"INVALID_LSF": c.a(0).r <= 0}, post=lambda c: [("width kept", c.this2.get("m_width").r == c.a(0).r)]),
        Contract(CW + "GetWidth", post=lambda c: [("the width", c.ret.r == c.this.get("m_width").r)]),
        Contract(CR + "CLSFGaussianConstantResolution", sel=isctor, throws=lambda c: {"INVALID_LSF": c.a(0).r <= 1}, post=lambda c: [("resolution kept", c.this2.get("m_Resolution").r == c.a(0).r)]),
        Contract(CR + "GetWidth", thisclass=CR[:-2], pre=lambda c: pos(c) + [("valid", c.this.get("m_Resolution").r > 1)], post=lambda c: [("wavelength over resolution", c.ret.r == lam(c) / c.this.get("m_Resolution").r * F(c))]),
        Contract(CR + "computeResolution", pre=lambda c: [("width", c.a(1).r > 0)], post=lambda c: [("inverse of the width", c.ret.r == c.a(0).r / c.a(1).r * F(c))]),
        Contract(NS + "GetWidth", thisclass=NS[:-2], pre=pos, post=lambda c: [("linear law", c.ret.r == (lam(c) * dbl("8.121e-4") + dbl("7.4248")) / dbl("2.35"))]),
        Contract(NV + "GetWidth", thisclass=NV[:-2], pre=pos, post=lambda c: [("quadratic sum of instrument and source", c.ret.r == sq(c, (lam(c) * dbl("3.939e-4") + dbl("2.191")) * (lam(c) * dbl("3.939e-4") + dbl("2.191")) + (c.this.get("m_SourceSizeDispersion").r * dbl("13.4") / dbl("0.355")) * (c.this.get("m_SourceSizeDispersion").r * dbl("13.4") / dbl("0.355"))))]),
        Contract(VW + "CLSFGaussianVariableWidth", sel=lambda f: "args" == f["params"][0]["n"], pre=lambda c: [("arguments", NOT(c.a(0).null)), ("no logs of non positive wavelengths", z3.BoolVal(True))],
                 throws=lambda c: {"BAD_COUNTMATCH": badsize(c), "INVALID_LSF": AND(NOT(badsize(c)), NOT(forall(iv(0), arg(c)[1].n, lambda k: at(arg(c)[1], k) > 0)))},
                 post=lambda c: [("table kept", AND(same(c.this2.get("m_width"), arg(c)[1]), same(c.this2.get("m_spcAxis").get("m_Samples"), arg(c)[0])))]),
        Contract(VW + "IsValid", throws=lambda c: {"BAD_COUNTMATCH": OR(tab(c)[1].n == 0, tab(c)[1].n != tab(c)[0].n)}, post=lambda c: [("every width is positive", c.ret == forall(iv(0), tab(c)[1].n, lambda k: at(tab(c)[1], k) > 0))]),
        Contract(VW + "GetWidth", thisclass=VW[:-2], pre=vpre, throws=vdue, post=vpost),
        Contract(N + "CLineProfile::GetLineProfileVal", usable=True, trusted="a positive function of position, centre and width (C18)", post=lambda c: [("t", AND(c.ret.r == prof(c, c.a(0).r, c.a(1).r, c.a(2).r), c.ret.r > 0))]),
        Contract(N + "CLSF::GetWidth", usable=True, trusted="the width of whichever kind at the wavelength, clipped", post=lambda c: [("t", c.ret.r == wid(c, c.a(0).r))]),
        Contract(N + "CLSF::IsValid", usable=True, trusted="either answer"),
        Contract(N + "CLSF::GetProfileVal", sel=lambda f: len(f["params"]) == 2, name="CLSF::GetProfileVal (width at the centre)", pre=lambda c: [("a profile", NOT(c.this.get("m_profile").null))],
                 post=lambda c: [("profile of the width at the centre", c.ret.r == prof(c, c.a(0).r, c.a(1).r, wid(c, c.a(1).r)))]),
        Contract(N + "CLSF::getNormalizedProfileVector", opts=dict(assume_div=True, sum_bounds=True), pre=lambda c: [("not empty", c.a(0).n >= 1), ("a profile", NOT(c.this.get("m_profile").null))], throws=lambda c: {"INTERNAL_ERROR": z3.BoolVal(True)}, maythrow=("INTERNAL_ERROR",), post=kernel),
    ]
