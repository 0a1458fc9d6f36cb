"""C02: redshift candidates: width of a posterior peak, integration windows, probability, ranking."""
from vc.spec import *
from vc.contract import VCtx
from specs import c01, c05

FILES = ["statistics/deltaz.cpp", "statistics/pdfcandidatesz.cpp", "operator/pdfz.cpp", "/verif/specs/tu/ranges.cpp"]
HARNESS = "c02"
RULE = "random posteriors, grids and candidate sets (isolated, touching, nearly equal candidates); windows, widths and integrals recomputed in long double"
ASSUMPTIONS = ["the posterior has one value per redshift of a strictly increasing grid (callers' obligation)"]
D = "NSEpic::CDeltaz::"
P = "NSEpic::CPdfCandidatesZ::"


def has(v, z):
    return exists(iv(0), v.n, lambda k: at(v, k) == z)


def gi_post(c):
    v, z, h = c.a(0), c.a(1).r, c.a(2)
    iz, lo, hi = c.a2(3), c.a2(4), c.a2(5)
    n = v.n
    return [("the sample at the redshift", AND(iz >= 0, iz < n, at(v, iz) == z)),
            ("lower end", lo == IF(iz - h < 0, iv(0), iz - h)),
            ("upper end", hi == IF(iz + h > n - 1, n - 1, iz + h))]


def curv(c, y, x, i0, lo, hi):
    """numerator and denominator of the least squares curvature of y0-y around x0"""
    dx = lambda k: at(x, k) - at(x, i0)
    num = c.sum(lambda k: dx(k) * dx(k) * (at(y, i0) - at(y, k)))(lo, hi + 1)
    den = c.sum(lambda k: dx(k) * dx(k) * (dx(k) * dx(k)))(lo, hi + 1)
    return num, den


def comp_pre(c):
    y, x, i0, lo, hi = c.a(0), c.a(1), c.a(2), c.a(3), c.a(4)
    return [("one value per redshift", y.n == x.n), ("increasing grid", strict2(x)),
            ("samples", AND(0 <= lo, lo <= i0, i0 <= hi, hi < x.n, lo < hi))]


def comp_post(c):
    num, den = curv(c, c.a(0), c.a(1), c.a(2), c.a(3), c.a(4))
    s = c.ret.r
    return [("positive", s > 0), ("inverse square is the least squares curvature", s * s * num == den)]


def comp_throws(c):
    num, den = curv(c, c.a(0), c.a(1), c.a(2), c.a(3), c.a(4))
    return {"DZ_NOT_COMPUTABLE": num <= 0}


def comp_lemmas(c):
    y, x, i0, lo, hi = c.a(0), c.a(1), c.a(2), c.a(3), c.a(4)
    dx = lambda k: at(x, k) - at(x, i0)
    S = c.sum(lambda k: dx(k) * dx(k) * (dx(k) * dx(k)))
    a, b, d = S(lo, i0), S(i0, i0 + 1), S(i0 + 1, hi + 1)
    return [("distinct", forall(lo, hi + 1, lambda k: IMP(k != i0, dx(k) != 0))),
            ("below", IMP(lo < i0, a > 0)), ("at", b == 0), ("above", IMP(i0 < hi, d > 0)),
            ("split", AND(S(lo, i0 + 1) == a + b, S(lo, hi + 1) == S(lo, i0 + 1) + d)), ("spread", S(lo, hi + 1) > 0)]


def win(iz, h, n):
    return IF(iz - h < 0, iv(0), iz - h), IF(iz + h > n - 1, n - 1, iz + h)


I0 = z3.Int("i_cand")


def gd_pre(c):
    x, y, z = c.a(0), c.a(1), c.a(2).r
    out = [("one value per redshift", y.n == x.n), ("increasing grid", strict2(x)), ("more than one sample", x.n != 1), ("direct estimate", c.a(3) == 0)]
    if isinstance(c, VCtx):
        out.append(("ghost: the sample at the redshift", IMP(has(x, z), AND(0 <= I0, I0 < x.n, at(x, I0) == z))))
    return out


def gd_terms(c):
    x, y = c.a(0), c.a(1)
    l5, h5 = win(I0, 5, x.n)
    l2, h2 = win(I0, 2, x.n)
    return curv(c, y, x, I0, l5, h5), curv(c, y, x, I0, l2, h2)


def gd_post(c):
    (n5, d5), (n2, d2) = gd_terms(c)
    r = c.ret.r
    return [("positive", r > 0), ("eleven samples around the redshift", IMP(n5 > 0, r * r * n5 == d5)),
            ("five samples when those fail", IMP(AND(n5 <= 0, n2 > 0), r * r * n2 == d2)),
            ("default width when both fail", IMP(AND(n5 <= 0, n2 <= 0), r == z3.RealVal("1/1000"))),
            ("warned on failure", c.warned("DELTAZ_COMPUTATION_FAILED") == (n5 <= 0))]


def tr_pre(c):
    x, y = c.a(0), c.a(1)
    r = c.a(2)
    return [("one value per redshift", y.n == x.n), ("increasing grid", strict2(x)),
            ("window", r.get("m_Begin").r < r.get("m_End").r), ("candidate", NOT(c.a(3).null))]


def tr_idx(c):
    return z3.Int("i_lo"), z3.Int("i_hi")


def tr_post(c):
    x, y, r = c.a(0), c.a(1), c.a(2)
    n = c.a2(3).val
    lo, hi = z3.Int("i_lo"), z3.Int("i_hi")
    e = c.W.uf("exp", R, R)
    S = c.sum(lambda k: (e(at(y, k)) + e(at(y, k - 1))) / 2 * (at(x, k) - at(x, k - 1)))(lo + 1, hi + 1)
    is_lo, is_hi = c05.is_lo(x, r.get("m_Begin").r, lo), c05.is_hi(x, r.get("m_End").r, hi)
    return [("lower limit is the sample enclosing the window", IMP(is_lo, n.get("ValSumProbaZmin").r == at(x, lo))),
            ("upper limit is the sample enclosing the window", IMP(is_hi, n.get("ValSumProbaZmax").r == at(x, hi))),
            ("probability is the integral of the posterior between the limits", IMP(AND(is_lo, is_hi), n.get("ValSumProba").r == S))]


def tr_throws(c):
    x, z, r = c.a(0), c.a(3).val.get("Redshift").r, c.a(2)
    b, e = r.get("m_Begin").r, r.get("m_End").r
    i = AND(z >= b, z <= e)
    return {"CRANGE_VALUE_OUTSIDERANGE": NOT(i), "EMPTY_LIST": AND(i, x.n == 0),
            "CRANGE_VECTBORDERS_OUTSIDERANGE": AND(i, x.n > 0, OR(b < at(x, 0), e > at(x, x.n - 1)))}


def cands(c):
    return c.this.get("m_candidates")


FIELDS = ("Redshift", "ValProba", "ValSumProba", "Deltaz", "ValSumProbaZmin", "ValSumProbaZmax")


def rk(r, k):
    """identifier and candidate of rank k"""
    p = sel(r.el, k)
    return p.get("first"), p.get("second")


def entry(m, r, k):
    """rank k holds a candidate of the map under its identifier"""
    i, p = rk(r, k)
    q = sel(m.val, i)
    return AND(z3.Select(m.dom, i), p.null == q.null, IMP(NOT(q.null), AND(*[p.val.get(f).r == q.val.get(f).r for f in FIELDS])))


def sort_post(c):
    r = c.a2(0)
    m = cands(c)
    vsp = lambda k: rk(r, k)[1].val.get("ValSumProba").r
    key = z3.Const("id_q", m.dom.sort().domain())
    return [("one rank per candidate", r.n == m.n),
            ("every rank is a candidate", forall(iv(0), r.n, lambda k: entry(m, r, k))),
            ("no candidate twice", forall2(iv(0), r.n, lambda i, j: rk(r, i)[0] != rk(r, j)[0])),
            ("decreasing probability", forall2(iv(0), r.n, lambda i, j: vsp(i) >= vsp(j)))]


def sort_loops(c, lc):
    if lc.i is None:
        return []
    out = []
    mod = {cell for cell, _ in lc.loop.mods}
    src = [v for cell, v in lc.entry.mem.items() if cell not in mod and isinstance(v, VecV) and str(getattr(v.elty, "k", "")) != "class" and v.n is not None and z3.is_expr(sel(v.el, iv(0))) and sel(v.el, iv(0)).sort() == cands(c).dom.sort().domain()]
    for h, e in lc.vecs():
        x = sel(h.el, iv(0))
        if not (isinstance(x, StructV) and x.ty.tn == "std::pair"):
            continue
        for v in src:
            out.append(("identifiers", forall(iv(0), h.n, lambda k: rk(h, k)[0] == sel(v.el, k))))
        out.append(("entries", forall(iv(0), h.n, lambda k: entry(cands(c), h, k))))
    return out


def contracts():
    use = [x for x in c05.contracts() if x.short == "getEnclosingIntervalIndices(value)"] + [x for x in c01.contracts() if x.q.endswith("logSumExpTrick")]
    for x in use:
        x.usable = True
    return use + [
        Contract(D + "GetIndices", pre=lambda c: [("increasing grid", strict2(c.a(0))), ("window", AND(c.a(2) >= 0, c.a(2) < 2 ** 20))], post=gi_post, usable=True, modifies=(3, 4, 5),
                 throws=lambda c: {"INTERNAL_ERROR": NOT(has(c.a(0), c.a(1).r))}),
        Contract(D + "Compute", pre=comp_pre, post=comp_post, throws=comp_throws, prelemmas=comp_lemmas, usable=True),
        Contract(D + "GetDeltaz", pre=gd_pre, post=gd_post, warns=("DELTAZ_COMPUTATION_FAILED",), ignore=(), loops=None,
                 throws=lambda c: {"INTERNAL_ERROR": OR(c.a(0).n == 0, NOT(has(c.a(0), c.a(2).r)))}),
        Contract(P + "getCandidateSumTrapez", pre=tr_pre, post=tr_post, throws=tr_throws, modifies=(3,)),
        Contract(P + "SortByValSumProbaInt", post=sort_post, modifies=(0,), loops=sort_loops),
        Contract(P + "integrationWindowHalfWidth", post=lambda c: [("three widths", c.ret.r == 3 * c.a(0).r)]),
    ]
