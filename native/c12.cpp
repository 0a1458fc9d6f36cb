#include "harness.h"
#include <algorithm>
#include <numeric>
#define private public
#define protected public
#include "RedshiftLibrary/common/mask.h"
#include "RedshiftLibrary/common/mean.h"
#include "RedshiftLibrary/common/median.h"
#include "RedshiftLibrary/continuum/irregularsamplingmedian.h"
#include "RedshiftLibrary/spectrum/spectrum.h"
#undef private
#undef protected
using namespace NSEpic;
static const int IE = (int)ErrorCode::INTERNAL_ERROR;
typedef std::vector<double> V;
static V flux(hn::Case &c, int n) {
  V y(n);
  int kind = c.i(0, 3);
  double x = 0;
  for (auto &v : y) {
    if (kind == 0)
      v = c.grid(-2, 2, 1.);
    else if (kind == 1)
      v = c.u(-10, 10);
    else if (kind == 2)
      v = x += c.u(-1, 1.2);
    else
      v = c.p(0.1) ? c.u(20, 100) : c.u(0.9, 1.1);
  }
  if (c.p(0.4))
    for (int k = 0, m = c.i(0, n / 3); k < m; k++)
      y[k] = 0;
  if (c.p(0.4))
    for (int k = 0, m = c.i(0, n / 3); k < m; k++)
      y[n - 1 - k] = 0;
  return y;
}
static double mean(V const &y, int a, int b) {
  double s = 0;
  for (int k = a; k < b; k++)
    s += y[k];
  return s / (b - a);
}
// lower and upper median
static std::pair<double, double> med(V const &y, int a, int b) {
  V w(y.begin() + a, y.begin() + b);
  std::sort(w.begin(), w.end());
  int n = w.size();
  return {w[(n - 1) / 2], w[n / 2]};
}
static double median(V const &y, int a, int b) {
  auto m = med(y, a, b);
  return 0.5 * (m.first + m.second);
}
CASES(arithmetic, 3000) {
  int n = c.in("n", c.i(1, 20)), m = c.in("m", c.p(0.8) ? n : c.i(1, 20));
  V x = flux(c, n), y = flux(c, m);
  CSpectrumFluxAxis a(x), b(y);
  CSpectrumFluxAxis r(x);
  int k = hn::code([&] { c.check(r.Subtract(b), "Subtract succeeds"); });
  c.eq(k, n == m ? 0 : IE, "Subtract: sizes must agree");
  if (n == m)
    for (int i = 0; i < n; i++)
      c.close(r[i], x[i] - y[i], 1e-14, 0, "difference");
  CSpectrumFluxAxis v(x);
  c.check(v.Invert(), "Invert succeeds");
  for (int i = 0; i < n; i++)
    c.eq(v[i], -x[i], "opposite");
  double rms = 0;
  k = hn::code([&] { rms = a.ComputeRMSDiff(b); });
  c.eq(k, n == m ? 0 : IE, "RMS: sizes must agree");
  if (n == m) {
    double s = 0;
    for (int i = 0; i < n; i++)
      s += (x[i] - y[i]) * (x[i] - y[i]) / n;
    c.close(rms, std::sqrt(s), 1e-12, 1e-14, "root mean square difference");
  }
  int p = c.i(0, n - 1), q = c.i(p, n - 1);
  double e = 0;
  for (int i = p; i <= q; i++)
    e = std::max(e, std::fabs(x[i]));
  c.eq(a.computeMaxAbsValue(p, q), e, "largest absolute value");
}
CASES(weighted_mean, 3000) {
  int n = c.in("n", c.i(1, 20));
  V x = c.in("flux", flux(c, n)), e = c.in("err", c.vec(n, 0.1, 3));
  CSpectrumFluxAxis a(x, CSpectrumNoiseAxis(e));
  bool bad = c.p(0.05);
  CMask mk(bad ? n + 1 : n);
  double p = c.pick(V{0., 0.5, 1.});
  for (int i = 0; i < n; i++)
    mk[i] = c.p(p);
  double m = 7, d = 7;
  bool r = false;
  int k = hn::code([&] { r = a.ComputeMeanAndSDev(mk, m, d); });
  c.eq(k, bad ? IE : 0, "mask size");
  if (bad)
    return;
  double s = 0, w = 0, w2 = 0, q = 0;
  for (int i = 0; i < n; i++)
    if (mk[i]) {
      double g = 1 / (e[i] * e[i]);
      s += x[i] * g;
      w += g;
      w2 += g * g;
    }
  c.eq(r, w > 0, "something to average");
  if (!r) {
    c.check(std::isnan(m) && std::isnan(d), "no average: NaN");
    return;
  }
  c.close(m, s / w, 1e-10, 1e-10, "weighted mean");
  int cnt = 0;
  for (int i = 0; i < n; i++)
    if (mk[i]) {
      q += (x[i] - m) * (x[i] - m) / (e[i] * e[i]);
      cnt++;
    }
  if (cnt >= 2 && q > 1e-6)
    c.close(d, std::sqrt(q / (w - w2 / w)), 1e-6, 1e-6, "weighted deviation");
}
CASES(medians, 4000) {
  int n = c.in("n", c.p(0.02) ? c.i(990, 1015) : c.p(0.5) ? c.i(1, 12) : c.i(1, 60));
  V x = flux(c, n);
  CMedian<Float64> M;
  V w(x);
  std::sort(w.begin(), w.end());
  double r = M.Find(x);
  if (n % 2)
    c.eq(r, w[n / 2], "median of an odd number of values");
  else
    c.check(r >= w[n / 2 - 1] && r <= w[n / 2], "median of an even number of values");
  if (n % 2 == 0 && n <= 200)
    c.close(r, 0.5 * (w[n / 2 - 1] + w[n / 2]), 1e-14, 0, "mean of the two middle values");
  CMean<Float64> A;
  c.close(A.Find(x.begin(), x.end()), mean(x, 0, n), 1e-10, 1e-10, "mean");
}
CASES(smooth, 4000) {
  int n = c.in("n", c.i(1, 40)), h = c.in("half", c.i(0, 12));
  V x = c.in("flux", flux(c, n));
  for (int kind = 0; kind < 2; kind++) {
    CSpectrumFluxAxis a(x);
    bool r = kind ? a.ApplyMedianSmooth(h) : a.ApplyMeanSmooth(h);
    bool on = h != 0 && n >= h + 1;
    c.eq(r, on, "smoothed or not");
    c.eq((int)a.GetSamplesCount(), n, "size kept");
    for (int i = 0; i < n; i++) {
      int p = std::max(0, i - h), q = std::min(n, i + h + 1);
      c.close(a[i], !on ? x[i] : kind ? median(x, p, q) : mean(x, p, q), 1e-10, 1e-10, kind ? "median of the window" : "mean of the window");
    }
  }
  CContinuumIrregularSamplingMedian C;
  int wd = c.in("width", c.i(1, 15));
  V g = C.MeanSmooth(x, wd), m = C.MedianSmooth(x, wd);
  c.eq((int)g.size(), n, "size");
  c.eq((int)m.size(), n, "size");
  for (int i = 0; i < n; i++) {
    int p = std::max(0, i - wd / 2), q = std::min(n, i + wd / 2 + wd % 2);
    c.close(g[i], mean(x, p, q), 1e-10, 1e-10, "mean of the window");
    c.close(m[i], median(x, p, q), 1e-12, 1e-12, "median of the window");
  }
  int b = c.in("begin", c.i(0, n)), e = c.in("end", c.i(b, n)), rf = c.in("reflex", c.i(0, e - b));
  double bv = c.u(-1, 1), ev = c.u(-1, 1);
  for (int odd = 0; odd < 2; odd++) {
    V r = odd ? C.OddMirror(x.begin() + b, x.begin() + e, rf, bv, ev) : C.EvenMirror(x.begin() + b, x.begin() + e, rf);
    c.eq((int)r.size(), e - b + 2 * rf, "size of the extended array");
    for (int k = 0; k < (int)r.size(); k++) {
      int j = k - rf;
      double v = j < 0 ? x[b - 1 - j] : j >= e - b ? x[e - 1 - (j - (e - b))] : x[b + j];
      if (odd && j < 0)
        v = 2 * bv - v;
      if (odd && j >= e - b)
        v = 2 * ev - v;
      c.close(r[k], v, 1e-14, 1e-14, "reflected array");
    }
  }
}
CASES(borders, 3000) {
  int n = c.in("n", c.i(0, 30));
  V x = flux(c, n);
  if (c.p(0.1))
    std::fill(x.begin(), x.end(), 0.);
  c.in("flux", x);
  CContinuumIrregularSamplingMedian C;
  int k0 = -7, k1 = -9;
  bool r = C.FindEffectiveSpectrumBorder(CSpectrumFluxAxis(x), k0, k1);
  int f = -1, l = -1, cnt = 0;
  for (int i = 0; i < n; i++)
    if (x[i] != 0) {
      if (f < 0)
        f = i;
      l = i;
      cnt++;
    }
  c.eq(k0, f < 0 ? -7 : f, "first sample that is not null");
  c.eq(k1, f < 0 ? -9 : l, "last sample that is not null");
  c.eq(r, cnt > 10, "more than ten samples");
}
static V slide(V const &y, int w, bool md) {
  int n = y.size(), half = w / 2, rest = w % 2;
  V o(n);
  for (int i = 0; i < n; i++) {
    int p = std::max(0, i - half), q = std::min(i + half + rest, n);
    o[i] = md ? median(y, p, q) : mean(y, p, q);
  }
  return o;
}
CASES(continuum, 3000) {
  int n = c.in("n", c.i(5, 120));
  V x = c.inc(n, c.u(1000, 5000), 0.9, 1.1), y = flux(c, n), e = c.vec(n, 0.5, 1);
  c.in("flux", y);
  std::string method = c.in("method", c.pick(std::vector<std::string>{"irregularSamplingMedian", "irregularSamplingMedian", "irregularSamplingMedian", "zero", "raw", "manual", "other"}));
  double win = c.in("window", c.pick(V{1, 2, 3, 4, 7, 20, 60}));
  bool even = c.in("even", c.p(0.7));
  int type = c.in("type", c.i(1, 3));
  CSpectrum s(CSpectrumSpectralAxis(x), CSpectrumFluxAxis(y, CSpectrumNoiseAxis(e)));
  s.SetContinuumEstimationMethod(method);
  s.SetMedianWinsize(win);
  s.SetMedianEvenReflection(even);
  V man = c.vec(n, -1, 1);
  if (method == "manual")
    s.SetContinuumEstimationMethod(CSpectrumFluxAxis(man));
  s.SetType((CSpectrum::EType)type);
  int cnt = 0, k0 = -1, k1 = -1;
  for (int i = 0; i < n; i++)
    if (y[i] != 0) {
      cnt++;
      k1 = i;
      if (k0 < 0)
        k0 = i;
    }
  double res = (x[n - 1] - x[0]) / (n - 1);
  int mw = std::round(win / res);
  int amp = std::min(mw, n / 2);
  bool can = mw > 0; // too few samples: all is continuum
  int k = hn::code([&] { s.GetContinuumFluxAxis(); });
  bool ok = method == "other" ? false : method == "irregularSamplingMedian" ? can : true;
  if (ok)
    c.eq(k, 0, "no error");
  else {
    c.eq(k, IE, "unknown method, or nothing to estimate from");
    return;
  }
  V a = s.GetContinuumFluxAxis().GetSamplesVector(), b = s.GetWithoutContinuumFluxAxis().GetSamplesVector();
  c.eq(s.GetRawFluxAxis().GetSamplesVector(), y, "raw flux untouched");
  c.eq((int)a.size(), n, "continuum size");
  c.eq((int)b.size(), n, "rest size");
  for (int i = 0; i < n; i++)
    c.close(a[i] + b[i], y[i], 1e-12, 1e-11, "continuum plus the rest is the flux");
  auto &cur = s.GetFluxAxis().GetSamplesVector();
  c.eq(cur, type == 1 ? y : type == 2 ? a : b, "current flux follows the type");
  if (method == "zero")
    c.eq(b, y, "zero: no continuum");
  else if (method == "raw")
    c.eq(a, y, "raw: all continuum");
  else if (method == "manual")
    c.eq(a, man, "manual: the given continuum");
  else if (cnt <= 10)
    c.eq(a, y, "too few samples: all continuum");
  else {
    for (int i = 0; i < n; i++)
      if (i < k0 || i > k1)
        c.eq(b[i], y[i], "null borders");
    int mdw = std::max(amp, mw), nd = k1 - k0 + 1;
    double h = 5. * amp, rr = std::round(nd / 2.0);
    int rf = rr < 10 ? 10 : h < rr ? (int)h : (int)rr;
    if (h < 10)
      rf = rr < 10 ? 10 : (int)h;
    if (!even)
      return;
    V w(nd + 2 * rf);
    for (int j = 0; j < (int)w.size(); j++) {
      int q = j - rf;
      w[j] = q < 0 ? y[k0 - 1 - q] : q >= nd ? y[k1 - (q - nd)] : y[k0 + q];
    }
    for (int q = 0; q < CContinuumIrregularSamplingMedian().m_MedianSmoothCycles; q++)
      w = slide(w, 2 * mdw + 1, true);
    mdw |= 1;
    for (int q = 0; q < CContinuumIrregularSamplingMedian().m_MedianSmoothCycles; q++)
      w = slide(w, mdw, true);
    w = slide(w, std::max(1, amp / 4), false);
    for (int i = k0; i <= k1; i++)
      c.close(a[i], w[i - k0 + rf], 1e-9, 1e-9, "median then mean of the reflected spectrum");
  }
}
HARNESS_MAIN
