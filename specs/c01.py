"""C01: posterior over redshift = likelihood x prior, normalised; evidence is its integral."""
from vc.spec import *

FILES = ["operator/pdfz.cpp", "operator/logZPdfResult.cpp"]
HARNESS = "c01"
RULE = ("random strictly increasing grids (regular, log, irregular, 2..40 points), merits and priors of widely varying scale; "
        "the integral is recomputed independently in long double")
ASSUMPTIONS = ["merit and prior lists have one value per redshift and the grid is strictly increasing (callers' obligation)"]


def trapz(c, v, z):
    """sum_k (e^v[k]+e^v[k-1])/2 (z[k]-z[k-1])"""
    e = c.W.uf("exp", R, R)
    return c.sum(lambda k: (e(at(v, k)) + e(at(v, k - 1))) / 2 * (at(z, k) - at(z, k - 1)))(1, z.n)


def exp(c, x):
    return c.W.uf("exp", R, R)(x)


def lse_pre(c):
    return [("one value per redshift", c.a(0).n == c.a(1).n), ("increasing grid", strict(c.a(1)))]


def lse_post(c):
    return [("exp(result) is the trapezoidal integral of exp(values)", exp(c, c.ret.r) == trapz(c, c.a(0), c.a(1))),
            ("the integral is positive", trapz(c, c.a(0), c.a(1)) > 0)]


def pdf_pre(c):
    m, z, p = c.a(0), c.a(1), c.a(3)
    return [("one merit per redshift", m.n == z.n), ("increasing grid", strict(z))]


def pdf_post(c):
    m, z, cst, p = c.a(0), c.a(1), c.a(2), c.a(3)
    out, ev = c.a2(4), c.a2(5)
    e = c.W.uf("exp", R, R)
    n = z.n
    P = trapz(c, p, z)
    like = c.sum(lambda k: (e(at(m, k) * -0.5 + at(p, k)) + e(at(m, k - 1) * -0.5 + at(p, k - 1))) / 2 * (at(z, k) - at(z, k - 1)))(1, n)
    k = K()
    return [
        ("one posterior value per redshift", out.n == n),
        ("posterior integrates to 1", IMP(n >= 2, trapz(c, out, z) == 1)),
        ("evidence is the integral of likelihood times normalised prior", IMP(n >= 2, exp(c, ev.r) * P == exp(c, cst.r) * like)),
        ("posterior is likelihood times prior over a constant",
         IMP(n >= 2, forall(iv(0), n - 1, lambda k: at(out, k + 1) - at(out, k) ==
             (at(m, k + 1) * -0.5 + at(p, k + 1)) - (at(m, k) * -0.5 + at(p, k))))),
    ]


def contracts():
    q = "NSEpic::COperatorPdfz::"
    return [
        Contract(q + "logSumExpTrick", pre=lse_pre, post=lse_post, usable=True,
                 throws=lambda c: {"INTERNAL_ERROR": c.a(1).n < 2}, opts=dict(exp_add=True)),
        Contract(q + "ComputePdf", pre=pdf_pre, post=pdf_post, modifies=(4, 5), opts=dict(exp_add=True),
                 throws=lambda c: {"INTERNAL_ERROR": OR(c.a(1).n < 1, AND(c.a(1).n >= 2, c.a(3).n != c.a(1).n))}),
    ]
