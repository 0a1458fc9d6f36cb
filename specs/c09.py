"""C09: air/vacuum wavelength conversion."""
from vc.spec import *

FILES = ["line/airvacuum.cpp"]
HARNESS = "c09"
RULE = "wavelength lists of 0..30 values inside, across and outside the range of each conversion formula"
ASSUMPTIONS = ["convergence of the inverse iteration in fewer than 30 steps is not proved (the warning it raises otherwise is part of the contract)"]
N = "NSEpic::"
# name -> (coefficients a b1 b2 c1 c2, lowest, highest wavelength)
CONV = {
    "CAirVacEdlen1953": (("6.4328E-5", "2.94981E-2", "2.5540E-4", "146.0", "41.0"), 2000, None),
    "CAirVacEdlen1966": (("8.34213E-5", "2.406030E-2", "1.5997E-4", "130.0", "38.9"), 2000, None),
    "CAirVacPeckReeder1972": (("0", "5.791817E-2", "1.67909E-3", "238.0185", "57.362"), 3000, 19000),
    "CAirVacCiddor1996": (("0", "5.792105E-2", "1.67917E-3", "238.0185", "57.362"), 3000, 19000),
    "CAirVacMorton2000": (("8.34254e-5", "2.406147e-2", "1.5998e-4", "130.0", "38.9"), 3000, 19000),
}


def dbl(s):
    from fractions import Fraction
    f = Fraction(s)
    return z3.RealVal("%d/%d" % (f.numerator, f.denominator))


def bad(v, lo, hi):
    """wavelengths the formula refuses"""
    out = v.n == 0
    ex = exists(iv(0), v.n, lambda k: OR(at(v, k) < lo, at(v, k) > hi) if hi else at(v, k) < lo)
    return OR(out, ex)


F = ("m_a", "m_b1", "m_b2", "m_c1", "m_c2")


def index(c, w):
    return c.W.uf("refractive_index", *[R] * 7)(*[c.this.get(f).r for f in F], w)


def formula(c, w):
    a, b1, b2, c1, c2 = [c.this.get(f).r for f in F]
    s = 10 ** 8 / (w * w)
    return 1 + a + b1 / (c1 - s) + b2 / (c2 - s)


def sane(c, lo=2000):
    """coefficients of a dispersion formula: no pole at or above the lowest wavelength"""
    a, b1, b2, c1, c2 = [c.this.get(f).r for f in F]
    s = z3.RealVal(10 ** 8) / (lo * lo)
    w = z3.Real("w")
    return [("dispersion formula", AND(a >= 0, b1 > 0, b2 > 0, c1 > s, c2 > s)),
            ("definition of the refractive index", z3.ForAll([w], index(c, w) == formula(c, w), patterns=[index(c, w)]))]


def inverse(c):
    air, vac = c.a(0), c.ret
    w = z3.Real("w")
    res = lambda w, k: w / index(c, w) - at(air, k)
    return [("one value per wavelength", vac.n == air.n), ("not below the air wavelength", forall(iv(0), vac.n, lambda k: at(vac, k) >= at(air, k))),
            ("vacuum wavelength of the air wavelength to 1e-9, or a warning",
             OR(c.warned("AIR_VACUUM_REACHED_MAX_ITERATIONS"),
                forall(iv(0), vac.n, lambda k: z3.Exists([w], AND(absr(res(w, k)) <= dbl("1e-9"), at(vac, k) == w - res(w, k)), patterns=[index(c, w)]))))]


def iterate(c, lc):
    """iterates stay above the air wavelengths"""
    out = []
    if lc.depth > 0:
        return out
    for h, e in lc.vecs():
        if h.elty is not None and h.elty.k == "float":
            out.append(("same size", h.n == c.a(0).n))
            out.append(("above air", forall(iv(0), h.n, lambda k: at(h, k) >= at(c.a(0), k))))
    return out


def contracts():
    out = []
    for cls, (co, lo, hi) in CONV.items():
        out.append(Contract(N + cls + "::" + cls, sel=lambda f: not f["params"], modifies=("this",), name=cls + " constructor",
                            post=lambda c, co=co: [("published coefficient " + f, c.this2.get(f).r == dbl(x)) for f, x in zip(F, co)]))
        out.append(Contract(N + cls + "::CheckWaveRange", throws=lambda c, lo=lo, hi=hi: {"INTERNAL_ERROR": bad(c.a(0), lo, hi)}, usable=True))
    AV = N + "CAirVacuum::"
    out.append(Contract(AV + "AirRefractiveIndex", usable=True, opts=dict(opaque_mul=False),
                        pre=lambda c: sane(c) + [("wavelengths above the poles", forall(iv(0), c.a(0).n, lambda k: at(c.a(0), k) >= 2000))],
                        post=lambda c: [("one index per wavelength", c.ret.n == c.a(0).n), ("dispersion formula", forall(iv(0), c.a(0).n, lambda k: at(c.ret, k) == index(c, at(c.a(0), k)))),
                              ("light is slower in air", forall(iv(0), c.ret.n, lambda k: at(c.ret, k) >= 1)),
                              ("wavelengths are shorter in air", forall(iv(0), c.ret.n, lambda k: at(c.a(0), k) / at(c.ret, k) <= at(c.a(0), k)))]))
    for cls, (co, lo, hi) in CONV.items():
        out.append(Contract(AV + "VacToAir", thisclass=N + cls, name=cls + "::VacToAir", usable=cls == "CAirVacEdlen1953", pre=sane,
                            throws=lambda c, lo=lo, hi=hi: {"INTERNAL_ERROR": bad(c.a(0), lo, hi)},
                            post=lambda c: [("one value per wavelength", c.ret.n == c.a(0).n), ("vacuum over refractive index", forall(iv(0), c.a(0).n, lambda k: at(c.ret, k) == at(c.a(0), k) / index(c, at(c.a(0), k))))]))
    for cls, (co, lo, hi) in CONV.items():
        if cls not in ("CAirVacEdlen1953", "CAirVacCiddor1996"):
            continue
        out.append(Contract(AV + "AirToVac", thisclass=N + cls, name=cls + "::AirToVac", budget=2, pre=sane, warns=("AIR_VACUUM_REACHED_MAX_ITERATIONS",), loops=iterate, opts=dict(nounroll=True),
                            throws=lambda c, lo=lo, hi=hi: {"INTERNAL_ERROR": bad(c.a(0), lo, hi)}, post=inverse))
    s_ = lambda w: 10 ** 8 / (w * w)
    out.append(Contract(N + "CAirVacMorton2000::AirToVac", throws=lambda c: {"INTERNAL_ERROR": bad(c.a(0), 3000, 19000)},
                        post=lambda c: [("one value per wavelength", c.ret.n == c.a(0).n),
                                        ("Piskunov's inverse formula", forall(iv(0), c.a(0).n, lambda k: at(c.ret, k) == at(c.a(0), k) * (1 + dbl("0.00008336624212083")
                                         + dbl("0.02408926869968") / (dbl("130.1065924522") - s_(at(c.a(0), k))) + dbl("0.0001599740894897") / (dbl("38.92568793293") - s_(at(c.a(0), k))))))]))
    return out
