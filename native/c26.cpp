#include <algorithm>
#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/spectrum/spectralaxis.h"
#undef private
#undef protected
using namespace NSEpic;
typedef CSpectrumSpectralAxis A;
static TFloat64List axis(hn::Case &c, int n) {
  int k = c.i(0, 3);
  TFloat64List v(n);
  double st = std::pow(10., c.u(-4, -1)), x0 = c.u(1000, 9000);
  for (int i = 0; i < n; i++)
    v[i] = k == 0   ? x0 * std::exp(i * st)
           : k == 1 ? x0 + i * c.pick<double>({1.5})
           : k == 2 ? (i ? v[i - 1] * (1 + st * c.u(0.1, 3.)) : x0)
                    : 100. * c.i(10, 60);
  return v;
}
static bool strict(TFloat64List const &v) {
  for (size_t k = 1; k < v.size(); k++)
    if (!(v[k] > v[k - 1]))
      return false;
  return true;
}
// log-regular within 10 % of the first step; 0 no, 1 yes, 2 too close to tell
static int regular(TFloat64List const &v) {
  double g = std::log(v[1] / v[0]);
  int r = 1;
  for (size_t k = 1; k < v.size(); k++) {
    double e = std::fabs((std::log(v[k] / v[k - 1]) - g) / g);
    if (e > 0.1 + 1e-9)
      return 0;
    if (e > 0.1 - 1e-9)
      r = 2;
  }
  return r;
}
static void caches(hn::Case &c, A const &a, std::string const &w) {
  auto const &v = a.m_Samples;
  if (bool(a.m_isSorted))
    c.check(strict(v), w + ": cached 'sorted' is wrong");
  if (bool(!a.m_isSorted))
    c.check(!strict(v), w + ": cached 'not sorted' is wrong");
  if (bool(!a.m_isLogSampled) && v.size() >= 2 && strict(v) && v[0] > 0)
    c.check(regular(v) != 1, w + ": cached 'not log-sampled' is wrong");
  if (bool(a.m_isLogSampled) && v.size() >= 2 && strict(v) && v[0] > 0)
    c.check(regular(v) != 0, w + ": cached 'log-sampled' is wrong");
}
static void query(hn::Case &c, A const &a) {
  int q = c.i(0, 3);
  if (q & 1)
    a.isSorted();
  if ((q & 2) && a.m_Samples.size() >= 2 && strict(a.m_Samples) && a.m_Samples[0] > 0)
    a.IsLogSampled();
}
CASES(history, 40000) {
  int n = c.i(0, 12);
  auto v = c.in("axis", axis(c, n));
  A a(v);
  int steps = c.in("steps", c.i(1, 5));
  for (int s = 0; s < steps; s++) {
    query(c, a);
    auto old = a.m_Samples;
    n = old.size();
    switch (c.in("op", c.i(0, 9))) {
    case 0: {
      double f = c.in("f", c.p(0.15) ? c.pick<double>({-1., -0.5, 0.}) : c.u(0.1, 5));
      a *= f;
      for (int k = 0; k < n; k++)
        c.close(a.m_Samples[k], old[k] * f, 1e-14, 0, "scaled sample");
      break;
    }
    case 1: {
      double f = c.in("f", c.p(0.15) ? c.pick<double>({-1., -0.5}) : c.u(0.1, 5));
      a /= f;
      for (int k = 0; k < n; k++)
        c.close(a.m_Samples[k], old[k] / f, 1e-14, 0, "scaled sample");
      break;
    }
    case 2: {
      double f = c.in("off", c.p(0.3) ? 0. : c.u(0, 5000));
      a.ApplyOffset(f);
      for (int k = 0; k < n; k++)
        c.close(a.m_Samples[k], old[k] + f, 1e-14, 0, "offset sample");
      break;
    }
    case 3: {
      int m = c.in("size", c.i(0, 15));
      a.SetSize(m);
      c.eq<int>(a.m_Samples.size(), m, "size");
      for (int k = 0; k < std::min(n, m); k++)
        c.eq(a.m_Samples[k], old[k], "kept sample");
      break;
    }
    case 4: {
      TFloat64List mask(n), exp;
      for (int k = 0; k < n; k++) {
        mask[k] = c.p(0.7);
        if (mask[k])
          exp.push_back(old[k]);
      }
      c.in("mask", mask);
      a = a.MaskAxis(mask);
      c.eq(a.m_Samples, exp, "masked axis");
      break;
    }
    case 5: {
      double f = c.in("shift", c.p(0.2) ? 0. : c.p(0.1) ? -1. : c.u(0.1, 5));
      int d = c.in("dir", c.i(0, 1));
      A b(axis(c, c.i(0, 8)));
      b.isSorted();
      int e = hn::code([&] { b.ShiftByWaveLength(a, f, (A::EShiftDirection)d); });
      c.eq(e, f < 0 ? (int)ErrorCode::INTERNAL_ERROR : 0, "error code");
      if (e)
        break;
      for (int k = 0; k < n; k++)
        c.close(b.m_Samples[k], f == 0 ? old[k] : d ? old[k] / f : old[k] * f, 1e-14, 0, "shifted sample");
      caches(c, b, "shift");
      a = b;
      break;
    }
    case 6:
      if (n) {
        int k = c.in("k", c.i(0, n - 1));
        a[k] = old[k] * c.u(0.5, 2);
      }
      break;
    case 7:
      a.setSamplesVector(c.in("samples", axis(c, c.i(0, 8))));
      break;
    case 8:
      a.clear();
      c.check(a.isEmpty(), "clear");
      break;
    default: {
      bool e = a.isSorted();
      c.eq(e, strict(old), "isSorted");
    }
    }
    caches(c, a, "history");
    if (a.m_Samples.size() >= 2 && strict(a.m_Samples) && a.m_Samples[0] > 0) {
      A f(a.m_Samples);
      int r = regular(a.m_Samples);
      if (r != 2) {
        c.eq<bool>(f.CheckLoglambdaSampling(), r == 1, "log-regular");
        if (r == 1) {
          c.check(f.IsLogSampled(), "IsLogSampled after the check");
          c.close(f.GetlogGridStep(), std::log(a.m_Samples.back() / a.m_Samples[0]) / (a.m_Samples.size() - 1), 1e-12, 0, "mean step");
        }
      }
    }
  }
}
CASES(lookup, 40000) {
  int n = c.i(0, 30);
  auto v = c.in("axis", c.p(0.5) ? c.inc(n, 1000, 0.1, 20) : c.inc(n, 1000, 1, 1));
  A a(v);
  auto pick = [&] { return c.p(0.5) && n ? v[c.i(0, n - 1)] : c.u(980, 1000 + 21. * n); };
  double lo = pick(), hi = pick();
  if (lo > hi)
    std::swap(lo, hi);
  c.in("lo", lo), c.in("hi", hi);
  TFloat64Range r(lo, hi);
  CMask m(c.i(0, 40), 1);
  a.GetMask(r, m);
  c.eq(m.GetMasksCount(), n, "mask size");
  int ns = 0, no = 0;
  CMask o(n);
  for (int k = 0; k < n; k++) {
    o[k] = c.p(0.5);
    bool in = v[k] >= lo && v[k] <= hi;
    c.eq<int>(m[k], in, "mask value");
    ns += in;
    no += in && o[k];
  }
  c.close(a.IntersectMaskAndComputeOverlapFraction(r, o), ns ? no / (double)ns : 0., 1e-12, 0, "overlap fraction");
  auto lr = a.GetLambdaRange();
  c.check(n >= 2 ? lr.GetBegin() == v[0] && lr.GetEnd() == v[n - 1] : lr.GetBegin() == 0 && lr.GetEnd() == 0, "lambda range");
  double cl = n >= 2 ? std::max(lo, v[0]) : 0, ch = n >= 2 ? std::min(hi, v[n - 1]) : 0;
  TFloat64Range cr;
  int e = hn::code([&] { a.ClampLambdaRange(r, cr); });
  int ee = lo == hi ? (int)ErrorCode::INVALID_WAVELENGTH_RANGE : n < 2 ? (int)ErrorCode::INVALID_SPECTRUM_WAVELENGTH : ch <= cl ? (int)ErrorCode::INVALID_WAVELENGTH_RANGE : 0;
  c.eq(e, ee, "error code");
  if (!e)
    c.check(cr.GetBegin() == cl && cr.GetEnd() == ch, "clamped range");
  if (!n)
    return;
  auto idx = [&](double x) {
    int k = 0;
    while (k < n - 1 && v[k] < x)
      k++;
    return k;
  };
  c.eq(a.GetIndexAtWaveLength(lo), idx(lo), "index");
  auto ir = a.GetIndexesAtWaveLengthRange(r);
  c.check(ir.GetBegin() == idx(lo) && ir.GetEnd() == idx(hi), "index range");
  if (n < 2) {
    c.eq(a.GetResolution(lo), 0., "resolution");
    return;
  }
  int j = std::max(1, idx(lo));
  c.eq(a.GetResolution(lo), v[j] - v[j - 1], "resolution");
  c.eq(a.GetResolution(), v[1] - v[0], "resolution");
  int ib = c.i(0, n - 1), ie = c.i(ib, n - 1);
  c.close(a.GetMeanResolution(TInt32Range(ib, ie)), ie > ib ? (v[ie] - v[ib]) / (ie - ib) : 0, 1e-9, 0, "mean resolution");
}
CASES(maskvector, 5000) {
  int n = c.i(0, 20), nm = c.p(0.9) ? n : std::max(0, n + c.i(-2, 2));
  auto v = c.in("v", c.vec(n, -5, 5));
  TFloat64List m(nm), exp, got;
  for (auto &x : m)
    x = c.p(0.6);
  c.in("mask", m);
  int e = hn::code([&] { got = CSpectrumAxis::maskVector(m, v); });
  c.eq(e, n != nm ? (int)ErrorCode::INTERNAL_ERROR : 0, "error code");
  if (e)
    return;
  for (int k = 0; k < n; k++)
    if (m[k] == 1)
      exp.push_back(v[k]);
  c.eq(got, exp, "kept samples");
}
HARNESS_MAIN
