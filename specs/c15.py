"""C15: redshift priors: shape, combination, normalisation; look-up of continuum priors."""
from vc.spec import *
from specs.c01 import trapz, exp, lse_pre, lse_post

FILES = ["statistics/zprior.cpp", "statistics/priorhelper.cpp", "operator/pdfz.cpp"]
HARNESS = "c15"
RULE = "random strictly increasing grids and presence lists; integrals recomputed independently in long double"
ASSUMPTIONS = ["one presence flag (line count, prior value) per redshift of a strictly increasing grid (callers' obligation)",
               "log and exp are inverse of each other"]
Q = "NSEpic::CZPrior::"
H = "NSEpic::CPriorHelper::"


def zs(c):
    return c.this.get("m_redshifts")


def norm(c):
    return c.this.get("m_normalizePrior")


def ln(c, x):
    return c.W.uf("log", R, R)(x)


def due(c):
    return {"INTERNAL_ERROR": AND(norm(c), zs(c).n < 2)}


def pre(c, v):
    return [("one value per redshift", IMP(norm(c), v.n == zs(c).n)), ("increasing grid", strict(zs(c)))]


def prior(c, n, shape):
    """shape: prior before normalisation (a term per index)"""
    r = c.ret
    return [("one value per redshift", r.n == n),
            ("not normalised: the prior itself", IMP(NOT(norm(c)), forall(iv(0), n, lambda k: at(r, k) == shape(k)))),
            ("normalised: same prior up to a constant", forall(iv(0), n - 1, lambda k: at(r, k + 1) - at(r, k) == shape(k + 1) - shape(k))),
            ("normalised: integrates to 1", IMP(norm(c), trapz(c, r, zs(c)) == 1))]


def idz_ok(c, z, mode):
    nz, dz, z0 = c.this.get("m_nZ"), c.this.get("m_dz").r, c.this.get("m_z0").r
    return nz, (z - z0) / dz


def trunc(x):
    return IF(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def rid(c):
    nz, q = idz_ok(c, c.a(0).r, c.a(1))
    r = c.ret
    t = trunc(q)
    return [("a bin of the prior", IMP(OR(c.a(1) == 0, c.a(1) == 1), AND(0 <= r, r < nz))),
            ("the bin containing the redshift, or the nearest one", IMP(c.a(1) == 0, r == IF(t < 0, 0, IF(t >= nz, nz - 1, t)))),
            ("the bin containing the redshift", IMP(c.a(1) == 1, r == t))]


def rid_pre(c):
    z = c.a(0).r
    return [("bins", AND(c.this.get("m_nZ") >= 1, c.this.get("m_dz").r > 0)),
            ("no overflow", AND((z - c.this.get("m_z0").r) < 2 ** 30 * c.this.get("m_dz").r, (z - c.this.get("m_z0").r) > -2 ** 30 * c.this.get("m_dz").r))]


def fill(c):
    old, new = c.a(0), c.a2(0)
    pz = at(c.this.get("m_data_pz"), c.a(1))
    g = lambda k, f: sel(new.el, k).get(f).r
    o = lambda k, f: sel(old.el, k).get(f).r
    al = lambda f: forall(iv(0), old.n, f)
    return [("same entries", new.n == old.n),
            ("data kept", al(lambda k: AND(*[g(k, f) == o(k, f) for f in ("priorTZE", "A_sigma", "A_mean")]))),
            ("log p(ebv,tpl|z)", al(lambda k: g(k, "logprior_precompTE") == ln(c, o(k, "priorTZE")))),
            ("log p(z)", al(lambda k: g(k, "logprior_precompZ") == IF(pz > 0, ln(c, pz / c.this.get("m_dz").r), 0))),
            ("amplitude weight", al(lambda k: g(k, "betaA") == c.this.get("m_betaA").r)),
            ("template weight", al(lambda k: g(k, "betaTE") == c.this.get("m_betaTE").r)),
            ("redshift weight", al(lambda k: g(k, "betaZ") == c.this.get("m_betaZ").r))]


def euclid(c):
    r = c.ret
    cut = -ln(c, z3.RealVal(10 ** 12))
    return [("one value per redshift", r.n == c.a(0).n),
            ("at most the maximum", IMP(NOT(norm(c)), forall(iv(0), r.n, lambda k: at(r, k) <= IF(cut > 0, cut, 0)))),
            ("floor", IMP(NOT(norm(c)), forall(iv(0), r.n, lambda k: at(r, k) >= cut))),
            ("normalised: integrates to 1", IMP(norm(c), trapz(c, r, zs(c)) == 1))]


def running_max(c, lc):
    return [("all so far at most the running maximum", forall(iv(0), lc.i, lambda k: IMP(kof(sel(h.el, k)) == 0, at(h, k) <= m))) for m, _ in lc.fls for h, _ in lc.vecs()
            if lc.i is not None and h.elty is not None and h.elty.k == "float"]


def contracts():
    ea = dict(exp_add=True)
    lv = lambda c, on: (lambda k: IF(on(k), z3.RealVal(0), ln(c, c.a(1).r)))
    return [
        Contract("NSEpic::COperatorPdfz::logSumExpTrick", pre=lse_pre, post=lse_post, usable=True, throws=lambda c: {"INTERNAL_ERROR": c.a(1).n < 2}, opts=ea),
        Contract(Q + "NormalizePrior", pre=lambda c: [("one value per redshift", c.a(0).n == zs(c).n), ("increasing grid", strict(zs(c)))], opts=ea, modifies=(0,), usable=True,
                 throws=lambda c: {"INTERNAL_ERROR": zs(c).n < 2},
                 post=lambda c: [("same size", c.a2(0).n == c.a(0).n), ("integrates to 1", trapz(c, c.a2(0), zs(c)) == 1),
                                 ("up to a constant", forall(iv(0), c.a(0).n - 1, lambda k: at(c.a2(0), k + 1) - at(c.a2(0), k) == at(c.a(0), k + 1) - at(c.a(0), k)))]),
        Contract(Q + "GetConstantLogZPrior", opts=ea, throws=due, pre=lambda c: [("size", c.a(0) >= 0), ("one value per redshift", IMP(norm(c), c.a(0) == zs(c).n)), ("increasing grid", strict(zs(c)))],
                 post=lambda c: prior(c, c.a(0), lambda k: z3.RealVal(0))),
        Contract(Q + "GetStrongLinePresenceLogZPrior", opts=ea, throws=due, pre=lambda c: pre(c, c.a(0)), post=lambda c: prior(c, c.a(0).n, lv(c, lambda k: at(c.a(0), k)))),
        Contract(Q + "GetNLinesSNRAboveCutLogZPrior", opts=ea, throws=due, pre=lambda c: pre(c, c.a(0)), post=lambda c: prior(c, c.a(0).n, lv(c, lambda k: at(c.a(0), k) >= 2))),
        Contract(Q + "CombineLogZPrior", opts=ea, throws=lambda c: {"INTERNAL_ERROR": OR(c.a(0).n != c.a(1).n, AND(norm(c), zs(c).n < 2))}, pre=lambda c: pre(c, c.a(0)),
                 post=lambda c: prior(c, c.a(0).n, lambda k: at(c.a(0), k) + at(c.a(1), k))),
        Contract(Q + "GetEuclidNhaLogZPrior", opts=dict(exp_add=True, opaque_mul=True), loops=running_max, throws=lambda c: {"INTERNAL_ERROR": OR(c.a(1).r <= 0, AND(norm(c), zs(c).n < 2))}, pre=lambda c: pre(c, c.a(0)), post=euclid),
        Contract(H + "getRedshiftIndex", pre=rid_pre, usable=True, throws=lambda c: {"INTERNAL_ERROR": AND(c.a(1) == 1, OR(trunc(idz_ok(c, c.a(0).r, 0)[1]) < 0, trunc(idz_ok(c, c.a(0).r, 0)[1]) >= c.this.get("m_nZ")))}, post=rid),
        Contract(H + "fillPriorDataPerZ", modifies=(0,), pre=lambda c: [("bin", AND(0 <= c.a(1), c.a(1) < c.this.get("m_data_pz").n)), ("bin width", c.this.get("m_dz").r > 0)],
                 throws=lambda c: {"INTERNAL_ERROR": exists(iv(0), c.a(0).n, lambda k: sel(c.a(0).el, k).get("priorTZE").r <= 0)}, post=fill),
        Contract(H + "setPzData", modifies=("this",), pre=lambda c: [("allocated", AND(c.this.get("m_nZ") >= 0, c.this.get("m_data_pz").n == c.this.get("m_nZ")))],
                 throws=lambda c: {"INTERNAL_ERROR": c.a(0).n != c.this.get("m_data_pz").n}, post=lambda c: [("copied", same(c.this2.get("m_data_pz"), c.a(0)))]),
    ]
