"""C24: photometric bands: flux density seen by a photon counting detector."""
from vc.spec import *
from specs.c18 import dbl

FILES = ["photometry/photometricband.cpp"]
HARNESS = "c24"
RULE = "random transmissions and wavelengths (increasing), random and flat fluxes"
ASSUMPTIONS = ["a band has at least one sample (callers' obligation), wavelengths are positive", "the transmission integral is not zero where a flux is divided by it"]
Q = "NSEpic::CPhotometricBand::"
CL = dbl("299792458") * 10 ** 10   # speed of light, Angstrom per second


def area(T, l, flux=None):
    """k-th trapezium of the integral over frequency, photon counting"""
    g = (lambda k: at(flux, k) * at(l, k) * at(l, k) / CL * at(T, k)) if flux is not None else (lambda k: at(T, k))
    return lambda k: (g(k) * at(l, k) + g(k - 1) * at(l, k - 1)) / 2 * (CL / at(l, k - 1) - CL / at(l, k))


def band(x):
    return x.get("m_transmission"), x.get("m_lambda"), x.get("m_freq")


def pos(l):
    return forall(iv(0), l.n, lambda k: at(l, k) > 0)


def inv(c, x):
    T, l, f = band(x)
    return AND(T.n == l.n, f.n == l.n, T.n >= 1, pos(l), forall(iv(0), l.n, lambda k: at(f, k) == CL / at(l, k)), x.get("m_transmision_sum").r == c.sum(area(T, l))(1, l.n))


def contracts():
    return [
        Contract(Q + "CPhotometricBand", sel=lambda f: len(f["params"]) == 2, pre=lambda c: [("not empty", AND(c.a(0).n >= 1, c.a(1).n >= 1)), ("positive wavelengths", pos(c.a(1)))],
                 throws=lambda c: {"INTERNAL_ERROR": c.a(0).n != c.a(1).n},
                 post=lambda c: [("transmission and wavelengths kept", AND(same(band(c.this2)[0], c.a(0)), same(band(c.this2)[1], c.a(1)))),
                                 ("smallest wavelength", AND(exists(iv(0), c.a(1).n, lambda k: at(c.a(1), k) == c.this2.get("m_minLambda").r), forall(iv(0), c.a(1).n, lambda k: at(c.a(1), k) >= c.this2.get("m_minLambda").r))),
                                 ("frequencies", AND(band(c.this2)[2].n == c.a(1).n, forall(iv(0), c.a(1).n, lambda k: at(band(c.this2)[2], k) == CL / at(c.a(1), k)))),
                                 ("transmission integral", c.this2.get("m_transmision_sum").r == c.sum(area(c.a(0), c.a(1)))(1, c.a(1).n))]),
        Contract(Q + "IntegrateFlux", pre=lambda c: [("band", inv(c, c.this)), ("transmission integral", c.this.get("m_transmision_sum").r != 0)], throws=lambda c: {"INTERNAL_ERROR": c.a(0).n != band(c.this)[0].n},
                 post=lambda c: [("transmission-weighted mean flux density per frequency", c.ret.r * c.sum(area(*band(c.this)[:2]))(1, band(c.this)[1].n) == c.sum(area(*band(c.this)[:2], flux=c.a(0)))(1, band(c.this)[1].n))]),
    ]
