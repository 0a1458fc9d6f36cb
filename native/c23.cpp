#include "harness.h"
#include <algorithm>
#define private public
#define protected public
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#undef private
#undef protected
using namespace NSEpic;
typedef std::vector<double> V;
static const int ISF = (int)ErrorCode::INVALID_SPECTRUM_FLUX, INO = (int)ErrorCode::INVALID_NOISE, SCE = (int)ErrorCode::SPECTRUM_CORRECTION_ERROR;
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::nan("");
static bool okn(double e) { return std::isfinite(e) && e >= DBL_MIN && std::isfinite(1 / (e * e)); }
static bool okf(double f) { return std::isfinite(f); }
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
struct S {
  V x, f, e;
  double lo, hi;
  int n;
};
static S make(hn::Case &c) {
  S s;
  s.n = c.in("n", c.i(2, 14));
  s.x = c.inc(s.n, c.i(1, 9), 0.5, 2);
  s.f = c.vec(s.n, -5, 5);
  s.e = c.vec(s.n, 0.1, 3);
  double pb = c.pick(V{0., 0., 0.1, 0.4, 1.});
  for (int k = 0; k < s.n; k++) {
    bool edge = k == 0 || k == s.n - 1;
    if (c.p(edge ? std::max(pb, 0.15) : pb))
      s.f[k] = c.pick(V{NaN, INF, -INF, 0., 1e-320});
    if (c.p(edge ? std::max(pb, 0.15) : pb))
      s.e[k] = c.pick(V{NaN, INF, -INF, 0., -1., 1e-320, 1e-200, 1e-150});
  }
  if (c.p(0.1))
    std::fill(s.f.begin(), s.f.end(), 0.);
  int a = c.i(0, s.n - 1), b = c.i(a, s.n - 1);
  s.lo = s.x[a] + c.pick(V{0, 0, -0.1, 0.1});
  s.hi = s.x[b] + c.pick(V{0, 0, -0.1, 0.1});
  if (c.p(0.3))
    s.lo = s.x[0] - c.pick(V{0., 1.});
  if (c.p(0.3))
    s.hi = s.x[s.n - 1] + c.pick(V{0., 1.});
  c.in("x", s.x);
  c.in("flux", s.f);
  c.in("err", s.e);
  c.in("lo", s.lo);
  c.in("hi", s.hi);
  return s;
}
static CSpectrum spec(S const &s) { return CSpectrum(CSpectrumSpectralAxis(s.x), CSpectrumFluxAxis(CSpectrumAxis(s.f), CSpectrumNoiseAxis(s.e))); }
CASES(flags, 3000) {
  S s = make(c);
  CSpectrumFluxAxis f(CSpectrumAxis(s.f), CSpectrumNoiseAxis(s.e));
  auto a = f.checkFlux(), b = f.GetError().checkNoise();
  c.eq((int)a.size(), s.n, "one flux answer per sample");
  c.eq((int)b.size(), s.n, "one noise answer per sample");
  for (int k = 0; k < s.n; k++) {
    c.eq((bool)a[k], okf(s.f[k]), "valid flux");
    c.eq((bool)b[k], okn(s.e[k]), "valid noise");
  }
}
CASES(repair, 4000) {
  S s = make(c);
  int a = c.in("a", c.i(0, s.n)), b = c.in("b", c.i(a, s.n));
  double co = c.in("factor", c.pick(V{1, 2, 10}));
  CSpectrumFluxAxis f(CSpectrumAxis(s.f), CSpectrumNoiseAxis(s.e));
  bool r = false;
  int k = hn::code([&] { r = f.correctFluxAndNoiseAxis(a, b, co); });
  double mf = INF, mn = 0;
  bool bad = false;
  for (int i = a; i < b; i++)
    if (okf(s.f[i]) && okn(s.e[i])) {
      mf = std::min(mf, std::fabs(s.f[i]));
      mn = std::max(mn, s.e[i]);
    } else
      bad = true;
  c.eq(k, std::isinf(mf) ? SCE : 0, "nothing valid to repair from");
  if (k)
    return;
  c.eq(r, bad, "something repaired");
  for (int i = 0; i < s.n; i++) {
    bool rep = i >= a && i < b && !(okf(s.f[i]) && okn(s.e[i]));
    c.check(same(f[i], rep ? mf / co : s.f[i]), "flux of sample " + std::to_string(i));
    c.check(same(f.GetError()[i], rep ? mn * co : s.e[i]), "noise of sample " + std::to_string(i));
  }
}
CASES(validate, 6000) {
  S s = make(c);
  if (s.lo > s.hi)
    std::swap(s.lo, s.hi);
  c.need(s.lo <= s.x[s.n - 1]);
  bool bf = false, bn = false, zero = true, any = false;
  double mf = INF, mn = 0;
  for (int k = 0; k < s.n; k++)
    if (s.x[k] >= s.lo && s.x[k] <= s.hi) {
      bf |= !okf(s.f[k]);
      bn |= !okn(s.e[k]);
      zero &= s.f[k] == 0;
      if (okf(s.f[k]) && okn(s.e[k])) {
        any = true;
        mf = std::min(mf, std::fabs(s.f[k]));
        mn = std::max(mn, s.e[k]);
      }
    }
  CSpectrum p = spec(s);
  c.eq(hn::code([&] { p.ValidateFlux(s.lo, s.hi); }), bf || zero ? ISF : 0, "flux accepted exactly when every sample of the range is finite and not all are null");
  c.eq(hn::code([&] { p.ValidateNoise(s.lo, s.hi); }), bn ? INO : 0, "noise accepted exactly when valid on the range");
  bool r = false;
  c.eq(hn::code([&] { r = p.correctSpectrum(s.lo, s.hi); }), any ? 0 : SCE, "repair needs a valid sample");
  if (any) {
    c.eq(r, bf || bn, "repaired or not");
    for (int i = 0; i < s.n; i++) {
      bool rep = s.x[i] >= s.lo && s.x[i] <= s.hi && !(okf(s.f[i]) && okn(s.e[i]));
      c.check(same(p.GetFluxAxis()[i], rep ? mf / 10 : s.f[i]), "flux of sample " + std::to_string(i));
      c.check(same(p.GetErrorAxis()[i], rep ? mn * 10 : s.e[i]), "noise of sample " + std::to_string(i));
    }
  }
}
CASES(whole, 5000) {
  S s = make(c);
  bool fix = c.in("repair", c.p(0.5));
  CSpectrum p = spec(s);
  c.need(s.lo < s.hi && s.lo < s.x[s.n - 1] && s.hi > s.x[0]);
  int k = hn::code([&] { p.ValidateSpectrum(TFloat64Range(s.lo, s.hi), fix); });
  bool bf = false, bn = false, zero = true;
  V f = p.GetFluxAxis().GetSamplesVector(), e = p.GetErrorAxis().GetSamplesVector();
  for (int i = 0; i < s.n; i++)
    if (s.x[i] >= s.lo && s.x[i] <= s.hi) {
      bf |= !okf(f[i]);
      bn |= !okn(e[i]);
      zero &= f[i] == 0;
    }
  if (!k)
    c.check(!bf && !bn && !zero, "an accepted spectrum is valid on the whole range");
  else
    c.check(bf || bn || zero || k == SCE, "a valid spectrum is accepted");
}
CASES(copies, 1500) {
  S s = make(c);
  for (auto &v : s.f)
    if (!std::isfinite(v))
      v = 1;
  for (auto &v : s.e)
    if (!okn(v))
      v = 1;
  CSpectrum p = spec(s);
  p.setObsID("obs");
  p.SetName("name");
  p.SetPhotData(std::make_shared<CPhotometricData>(TStringList{"b"}, V{1.}, V{2.}));
  p.SetContinuumEstimationMethod("zero");
  p.GetContinuumFluxAxis();
  CSpectrum q(p), r = spec(s), m = spec(s);
  r = p;
  CSpectrum t(p);
  m = std::move(t);
  for (CSpectrum const *o : {&q, &r, &m}) {
    c.eq(o->getObsID(), p.getObsID(), "observation id");
    c.eq(o->GetName(), p.GetName(), "name");
    c.check(o->GetPhotData() == p.GetPhotData(), "photometric data");
    c.eq(o->GetRawFluxAxis().GetSamplesVector(), s.f, "flux");
    c.eq(o->GetErrorAxis().GetSamplesVector(), s.e, "error");
    c.eq(o->GetSpectralAxis().GetSamplesVector(), s.x, "wavelengths");
    c.eq(o->GetContinuumEstimationMethod(), p.GetContinuumEstimationMethod(), "continuum method");
    c.eq(o->GetWithoutContinuumFluxAxis().GetSamplesVector(), s.f, "flux without continuum");
  }
}
HARNESS_MAIN
