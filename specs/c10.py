"""C10: dust (ISM) and intergalactic (IGM) extinction coefficients."""
from vc.spec import *
from specs.c18 import dbl

FILES = ["spectrum/fluxcorrectioncalzetti.cpp", "spectrum/fluxcorrectionmeiksin.cpp"]
HARNESS = "c10"
RULE = "random regular and irregular tables, colour excesses, redshift bins, curves, wavelengths on, between and outside the table"
ASSUMPTIONS = ["dust and curve indices handed to the look-ups are those of the table (callers' obligation)",
               "the kernel of the line spread function is not negative and sums to one (C25)"]
N = "NSEpic::"
CA, ME = N + "CSpectrumFluxCorrectionCalzetti::", N + "CSpectrumFluxCorrectionMeiksin::"


# ---- dust
def irregular(v):
    s = at(v, 1) - at(v, 0)
    return exists(iv(2), v.n, lambda t: absr((at(v, t) - at(v, t - 1) - s) / s) > dbl("1e-8"))


def ebmv(x, k):
    return x.get("m_EbmvCoeffStart").r + x.get("m_EbmvCoeffStep").r * z3.ToReal(k)


def tenpow(c, x):
    return c.W.uf("pow", R, R, R)(z3.RealVal(10), x)


def dustable(c):
    t = c.this
    n = t.get("m_dataCalzetti").n
    return [("table", AND(n >= 1, t.get("m_nEbmvCoeff") >= 0, t.get("m_dataDustCoeff").n == t.get("m_nEbmvCoeff") * n)),
            ("step", t.get("m_step").r > 0), ("dust index", AND(c.a(0) >= 0)),
            ("size", AND(n <= 10 ** 6, t.get("m_nEbmvCoeff") <= 1000)),
            ("the table reaches the largest wavelength", t.get("m_LambdaMax").r <= t.get("m_LambdaMin").r + t.get("m_step").r * (z3.ToReal(n) - dbl("0.5")))]


def dust_post(c):
    t, x, r = c.this, c.a(1).r, c.ret.r
    n, d = t.get("m_dataCalzetti").n, t.get("m_dataDustCoeff")
    lo, hi, s = t.get("m_LambdaMin").r, t.get("m_LambdaMax").r, t.get("m_step").r
    return [("no extinction outside the table", IMP(OR(x < lo, x >= hi), r == 1)),
            ("the nearest tabulated value", IMP(AND(x >= lo, x < hi), exists(iv(0), n, lambda k: AND(absr(lo + s * z3.ToReal(k) - x) * 2 <= s, r == at(d, c.a(0) * n + k)))))]


# ---- IGM
def zb(c):
    return c.this.get("m_zbins")


def zpre(c):
    return [("redshift bins", AND(zb(c).n >= 2, strict2(zb(c))))]


def zidx(c, z, r):
    b = zb(c)
    return AND(r >= -1, r <= b.n - 2, (r == -1) == (z < at(b, 0)), IMP(r >= 0, AND(at(b, r) <= z, OR(z < at(b, r + 1), r == b.n - 2))))


def geo(c):
    return c.this.get("m_LambdaMin").r, c.this.get("m_finegridstep").r, c.this.get("m_fineLambdaSize")


def gpre(c, *ws):
    lo, s, n = geo(c)
    return [("grid", AND(s > 0, n >= 1, n <= 10 ** 7))] + [("wavelength scale", AND(w - lo <= s * 10 ** 9, lo - w <= s * 10 ** 9)) for w in ws]


def widx(c, w, r):
    lo, s, n = geo(c)
    return AND(r >= 0, r < n, OR(absr(lo + s * z3.ToReal(r) - w) * 2 <= s, AND(r == 0, w < lo), AND(r == n - 1, w > lo + s * z3.ToReal(n - 1))))


def corr(c, z, m, l):
    return at(sel(sel(c.this.get("m_corrections").el, z).get("fluxcorr").el, m), l)


def lb(c, z, l):
    return at(sel(c.this.get("m_corrections").el, z).get("lbda"), l)


def tpre(c, m):
    """the convolved table: one curve per bin and index on the fine grid"""
    lo, s, n = geo(c)
    t = c.this.get("m_corrections")
    cur = lambda z: sel(t.el, z)
    return [("a curve per redshift bin", t.n == zb(c).n - 1),
            ("curves on the fine grid", forall(iv(0), t.n, lambda z: AND(cur(z).get("lbda").n == n, m < cur(z).get("fluxcorr").n, sel(cur(z).get("fluxcorr").el, m).n == n))),
            ("curve index", m >= -1)]


K0, J0 = z3.Int("k_any"), z3.Int("j_any")


def law(c, d):
    """the coefficient of one arbitrary colour excess k_any and wavelength j_any"""
    f = c.a(0).get("fluxcorr")
    return at(d, K0 * f.n + J0) == tenpow(c, -dbl("0.4") * at(f, J0) * (c.a(1).r + c.a(2).r * z3.ToReal(K0)))


def law_loop(c, lc):
    f, out = c.a(0).get("fluxcorr"), []
    box = AND(K0 >= 0, J0 >= 0, J0 < f.n)
    d = [h for h, e in lc.vecs() if h.elty is not None and h.elty.k == "float"]
    js = [j for j, _ in lc.ints]
    ks = js + [v for v in lc.entry.mem.values() if z3.is_expr(v) and v.sort() == z3.IntSort() and not z3.is_int_value(v)]
    for k in {str(k): k for k in ks}.values():
        if any(k.eq(j) for j in js):
            out.append(("earlier rows", IMP(AND(box, K0 < k), K0 * f.n + J0 < k * f.n)))
        for h in d:
            if any(k.eq(j) for j in js):
                out.append(("law", IMP(AND(box, K0 < k), law(c, h))))
            else:
                out += [("law", IMP(AND(box, OR(K0 < k, AND(K0 == k, J0 < j))), law(c, h))) for j in js]
    return out


LYA = z3.RealVal(1216)


def gridpre(c):
    """the wavelengths of the convolved curves increase"""
    t = c.this.get("m_corrections")
    return [("two grid points", geo(c)[2] >= 2), ("grids increase", forall(iv(0), t.n, lambda z: strict2(sel(t.el, z).get("lbda"))))]


def deriv(c, z, m, l):
    n = geo(c)[2]
    a, b = IF(l >= 1, l - 1, iv(0)), IF(l + 1 <= n - 1, l + 1, n - 1)
    return (corr(c, z, m, b) - corr(c, z, m, a)) / (lb(c, z, b) - lb(c, z, a))


def rgeo(c, raw):
    lo, s, n = geo(c)
    return lo, IF(raw, STEP, s), IF(raw, c.this.get("m_LambdaSize"), n)


def rpre(c, raw, b, e):
    lo, s, n = rgeo(c, raw)
    return [("grid", AND(s > 0, n >= 1, n <= 10 ** 7)), ("ordered range", b <= e)] + [("wavelength scale", AND(w - lo <= s * 10 ** 9, lo - w <= s * 10 ** 9)) for w in (b, e)]


def ridx(c, raw, r, i, j):
    """first point of the grid not below the range and last not above it, both clipped to the table"""
    lo, s, n = rgeo(c, raw)
    p = lambda k: lo + s * z3.ToReal(k)
    return AND(i >= 0, i < n, j >= 0, j < n, IMP(i < n - 1, p(i) >= r[0]), IMP(i > 0, p(i - 1) < r[0]), IMP(j > 0, p(j) <= r[1]), IMP(j < n - 1, p(j + 1) > r[1]))


def waves(c, raw, i, j, v):
    lo, s, n = rgeo(c, raw)
    return AND(v.n == IF(j >= i, j - i + 1, iv(0)), forall(iv(0), v.n, lambda k: at(v, k) == lo + s * z3.ToReal(i + k)))


def wave_range(c, raw, r, v):
    i, j = K("i"), K("j")
    return z3.Exists([i, j], AND(ridx(c, raw, r, i, j), waves(c, raw, i, j, v)))


def rsome(c, raw, r):
    """a grid point in the range, clipped to the table"""
    i, j = K("i"), K("j")
    return z3.Exists([i, j], AND(ridx(c, raw, r, i, j), i <= j))


def curve(c):
    z, i, j = K("z"), K("i"), K("j")
    v = c.ret.get("second")
    return z3.Exists([z, i, j], AND(zidx(c, c.a(1).r, z), ridx(c, z3.BoolVal(False), (c.a(0).get("m_Begin").r, c.a(0).get("m_End").r), i, j), forall(iv(0), v.n, lambda k: at(v, k) == corr(c, z, c.a(2), i + k))))


STEP = dbl("0.05")


def contracts():
    three = lambda f: len(f["params"]) == 3 and f["params"][0]["t"].k == "float"
    threei = lambda f: len(f["params"]) == 3 and f["params"][0]["t"].k != "float"
    gr = lambda r: (r.get("m_Begin").r, r.get("m_End").r)
    zsome = lambda c, f: exists(iv(0), zb(c).n - 1, lambda z: AND(zidx(c, c.a(0).r, z), exists(iv(0), geo(c)[2], lambda l: AND(widx(c, c.a(2).r, l), f(z, l)))))
    plain = lambda c: OR(c.a(2).r > LYA, c.a(0).r < at(zb(c), 0))
    cpre = lambda c: zpre(c) + gpre(c, c.a(2).r) + tpre(c, c.a(1))
    cthrow = lambda c: {"INTERNAL_ERROR": AND(c.a(2).r <= LYA, c.a(1) == -1)}
    return [
        Contract(N + "CalzettiCorrection::CalzettiCorrection", sel=lambda f: len(f["params"]) == 2, pre=lambda c: [("two wavelengths", AND(c.a(0).n >= 2, at(c.a(0), 1) != at(c.a(0), 0)))], throws=lambda c: {"BAD_CALZETTICORR": irregular(c.a(0))},
                 post=lambda c: [("step", c.this2.get("step").r == at(c.a(0), 1) - at(c.a(0), 0)), ("table kept", AND(same(c.this2.get("lbda"), c.a(0)), same(c.this2.get("fluxcorr"), c.a(1))))]),
        Contract(CA + "CSpectrumFluxCorrectionCalzetti", sel=lambda f: len(f["params"]) == 4, loops=law_loop, pre=lambda c: [("table", AND(c.a(0).get("lbda").n >= 1, c.a(0).get("fluxcorr").n <= 10 ** 6)), ("number", AND(c.a(3).r >= 0, c.a(3).r <= 1000))],
                 post=lambda c: [("limits and step", AND(c.this2.get("m_LambdaMin").r == at(c.a(0).get("lbda"), 0), c.this2.get("m_LambdaMax").r == at(c.a(0).get("lbda"), c.a(0).get("lbda").n - 1), c.this2.get("m_step").r == c.a(0).get("step").r)),
                                 ("curve kept", same(c.this2.get("m_dataCalzetti"), c.a(0).get("fluxcorr"))),
                                 ("one coefficient per colour excess and wavelength", c.this2.get("m_dataDustCoeff").n == c.this2.get("m_nEbmvCoeff") * c.a(0).get("fluxcorr").n),
                                 ("extinction law", IMP(AND(K0 >= 0, K0 < c.this2.get("m_nEbmvCoeff"), J0 >= 0, J0 < c.a(0).get("fluxcorr").n), law(c, c.this2.get("m_dataDustCoeff"))))]),
        Contract(CA + "GetEbmvValue", post=lambda c: [("linear grid", c.ret.r == ebmv(c.this, c.a(0)))]),
        Contract(CA + "GetEbmvIndex", opts=dict(opaque_mul=False), pre=lambda c: [("step", c.this.get("m_EbmvCoeffStep").r > 0), ("scale", absr(c.a(0).r - c.this.get("m_EbmvCoeffStart").r) <= c.this.get("m_EbmvCoeffStep").r * 10 ** 9)],
                 post=lambda c: [("nearest colour excess", absr(ebmv(c.this, c.ret) - c.a(0).r) * 2 <= c.this.get("m_EbmvCoeffStep").r)]),
        Contract(CA + "GetDustCoeff", opts=dict(opaque_mul=False), pre=dustable, throws=lambda c: {"INTERNAL_ERROR": c.a(0) >= c.this.get("m_nEbmvCoeff")}, post=dust_post),
        Contract(ME + "getRedshiftIndex", usable=True, pre=zpre, post=lambda c: [("the bin that holds the redshift, or the last", zidx(c, c.a(0).r, c.ret))]),
        Contract(ME + "getWaveIndex", opts=dict(opaque_mul=False), usable=True, pre=lambda c: gpre(c, c.a(0).r), post=lambda c: [("nearest grid point", widx(c, c.a(0).r, c.ret))]),
        Contract(ME + "getCorrection", sel=three, name="getCorrection(redshift, curve, wavelength)", pre=cpre, throws=cthrow,
                 post=lambda c: [("none above Lyman alpha or below the first bin", IMP(plain(c), c.ret.r == 1)), ("the curve of the bin at the nearest wavelength", IMP(NOT(plain(c)), zsome(c, lambda z, l: c.ret.r == corr(c, z, c.a(1), l))))]),
        Contract(ME + "getCorrectionDerivLbdaRest", usable=True, pre=lambda c: gridpre(c) + tpre(c, c.a(1)) + zpre(c) + [("indices", AND(c.a(0) >= 0, c.a(0) < zb(c).n - 1, c.a(1) >= 0, c.a(2) >= 0, c.a(2) < geo(c)[2]))],
                 post=lambda c: [("slope between the neighbours", c.ret.r == deriv(c, c.a(0), c.a(1), c.a(2)))]),
        Contract(ME + "getCorrectionAndDerivLbdaRest", pre=lambda c: cpre(c) + gridpre(c), throws=cthrow,
                 post=lambda c: [("none above Lyman alpha or below the first bin", IMP(plain(c), AND(c.ret.get("0").r == 1, c.ret.get("1").r == 0))),
                                 ("value and slope of the curve of the bin at the nearest wavelength", IMP(NOT(plain(c)), zsome(c, lambda z, l: AND(c.ret.get("0").r == corr(c, z, c.a(1), l), c.ret.get("1").r == deriv(c, z, c.a(1), l)))))]),
        Contract(ME + "getWaveRangeIndices", usable=True, pre=lambda c: rpre(c, c.a(1), *gr(c.a(0))), post=lambda c: [("grid points of the range, clipped to the table", ridx(c, c.a(1), gr(c.a(0)), c.ret.get("m_Begin"), c.ret.get("m_End")))]),
        Contract(ME + "getWaveVector", sel=lambda f: "int" in str(f["params"][0]["t"].p if hasattr(f["params"][0]["t"], "p") else "") , usable=True, name="getWaveVector(indices)", pre=lambda c: [("indices", c.a(0).get("m_Begin") >= 0)],
                 post=lambda c: [("wavelengths of the grid points", waves(c, c.a(1), c.a(0).get("m_Begin"), c.a(0).get("m_End"), c.ret))]),
        Contract(ME + "getWaveVector", sel=lambda f: "double" in str(f["params"][0]["t"].p if hasattr(f["params"][0]["t"], "p") else ""), name="getWaveVector(range)", pre=lambda c: rpre(c, c.a(1), *gr(c.a(0))),
                 post=lambda c: [("wavelengths of the grid points of the range", wave_range(c, c.a(1), gr(c.a(0)), c.ret))]),
        Contract(ME + "getWaveAndCorrectionVector", pre=lambda c: zpre(c) + rpre(c, z3.BoolVal(False), *gr(c.a(0))) + tpre(c, c.a(2)) + [("curve", c.a(2) >= 0)],
                 throws=lambda c: {"INTERNAL_ERROR": NOT(rsome(c, z3.BoolVal(False), gr(c.a(0))))},
                 post=lambda c: [("wavelengths of the grid points of the range", wave_range(c, z3.BoolVal(False), gr(c.a(0)), c.ret.get("first"))),
                                 ("one correction per wavelength", c.ret.get("second").n == c.ret.get("first").n),
                                 ("none below the first bin", IMP(c.a(1).r < at(zb(c), 0), forall(iv(0), c.ret.get("second").n, lambda k: at(c.ret.get("second"), k) == 1))),
                                 ("the curve of the bin", IMP(c.a(1).r >= at(zb(c), 0), curve(c)))]),
    ]
