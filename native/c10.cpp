#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/spectrum/LSF.h"
#include "RedshiftLibrary/spectrum/LSFConstantWidth.h"
#include "RedshiftLibrary/spectrum/fluxcorrectioncalzetti.h"
#include "RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h"
#undef private
#undef protected
using namespace NSEpic;
typedef long double L;
CASES(calzetti, 6000) {
  int n = c.i(2, 40);
  double x0 = c.u(50, 3000), st = c.pick<double>({1., 0.5, 10., 0.1, c.u(0.2, 30)});
  int bad = c.p(0.2) && n > 2 ? c.i(2, n - 1) : -1;
  double shift = bad > 0 ? c.pick<double>({st * 1e-6, -st * 1e-6, st * 0.5, -st * 0.5, st * 3e-8 + 1e-9}) : 0;
  TFloat64List x(n), f(n);
  for (int i = 0; i < n; i++) {
    x[i] = x0 + st * i + (bad >= 0 && i >= bad ? shift : 0);
    f[i] = c.u(-1, 15);
  }
  c.in("lambda", x);
  bool irr = false, doubt = false;
  for (int t = 2; t < n; t++) {
    L r = fabsl(((L)x[t] - x[t - 1] - ((L)x[1] - x[0])) / ((L)x[1] - x[0]));
    irr |= r > 1e-8L;
    doubt |= fabsl(r - 1e-8L) < 1e-10L + 4e-16L * x[n - 1] / st;
  }
  c.need(!doubt);
  std::shared_ptr<CalzettiCorrection> t;
  int e = hn::code([&] { t = std::make_shared<CalzettiCorrection>(x, f); });
  c.eq(e, irr ? (int)ErrorCode::BAD_CALZETTICORR : 0, "irregular table refused");
  if (e)
    return;
  double s0 = c.in("ebmv_start", c.p(0.5) ? 0. : c.u(0, 1)), ss = c.in("ebmv_step", c.pick<double>({0.1, 0.05, c.u(0.01, 1)}));
  int ne = c.in("ebmv_n", c.i(0, 12));
  CSpectrumFluxCorrectionCalzetti cz(*t, s0, ss, ne);
  c.eq(cz.GetNPrecomputedEbmvCoeffs(), ne, "number of colour excesses");
  c.close(cz.getLambdaMin(), x[0], 0, 0, "smallest wavelength");
  c.close(cz.getLambdaMax(), x[n - 1], 0, 0, "largest wavelength");
  for (int k = -2; k < ne + 2; k++) {
    c.close(cz.GetEbmvValue(k), (double)((L)s0 + (L)ss * k), 1e-13, 1e-13, "colour excess");
    c.eq(cz.GetEbmvIndex(cz.GetEbmvValue(k)), k, "index of a colour excess");
    c.eq(cz.GetEbmvIndex(cz.GetEbmvValue(k) + 0.4 * ss), k, "nearest colour excess");
    c.eq(cz.GetEbmvIndex(cz.GetEbmvValue(k) - 0.4 * ss), k, "nearest colour excess");
  }
  for (int q = 0; q < 30; q++) {
    int k = c.i(0, ne + 1);
    int m = c.i(0, n - 1);
    double w = c.p(0.3) ? x[m] : c.p(0.2) ? x[c.p(0.5) ? 0 : n - 1] * c.u(0.5, 1.5) : x[0] + st * (m + c.u(-0.45, 0.45));
    if (c.p(0.1))
      w = std::nextafter(c.p(0.5) ? x[0] : x[n - 1], c.p(0.5) ? 0 : 1e9);
    L pos = ((L)w - x[0]) / st;
    if (fabsl(fabsl(pos - roundl(pos)) - 0.5L) < 1e-6L)
      continue;
    double got = 0;
    int ee = hn::code([&] { got = cz.GetDustCoeff(k, w); });
    c.in("k", k);
    c.in("w", w);
    c.eq(ee, k >= ne ? (int)ErrorCode::INTERNAL_ERROR : 0, "dust index refused");
    if (ee)
      continue;
    double exp = w < x[0] || w >= x[n - 1] ? 1 : (double)powl(10, -0.4L * f[(int)roundl(pos)] * ((L)s0 + (L)ss * k));
    c.close(got, exp, 1e-12, 0, "dust coefficient");
  }
}
struct Tab {
  TFloat64List x, zb;
  std::vector<MeiksinCorrection> raw;
  std::shared_ptr<CSpectrumFluxCorrectionMeiksin> m;
  int n, nz, nc;
};
static Tab table(hn::Case &c, bool conv) {
  Tab t;
  t.n = c.i(2, conv ? 60 : 40);
  t.nz = c.i(1, 4);
  t.nc = c.i(1, 4);
  double x0 = c.in("first", c.p(0.5) ? 1216 - c.u(0, 0.05 * t.n) : c.u(800, 1215));
  t.zb = c.inc(t.nz + 1, c.u(1, 2.5), 0.05, 0.7);
  c.in("zbins", t.zb);
  for (int i = 0; i < t.n; i++)
    t.x.push_back(x0 + 0.05 * i);
  for (int z = 0; z < t.nz; z++) {
    std::vector<TFloat64List> f;
    for (int k = 0; k < t.nc; k++)
      f.push_back(c.vec(t.n, 0, 1));
    t.raw.push_back(MeiksinCorrection(t.x, f));
  }
  t.m = std::make_shared<CSpectrumFluxCorrectionMeiksin>(t.raw, t.zb);
  return t;
}
static int zindex(Tab const &t, double z) {
  int r = -1;
  for (int i = 0; i <= t.nz; i++)
    if (t.zb[i] <= z)
      r = i;
  return std::min(r, t.nz - 1);
}
CASES(igm, 6000) {
  Tab t = table(c, false);
  auto &m = *t.m;
  m.m_corrections = t.raw;
  m.m_fineLambdaSize = t.n;
  c.eq(m.getIdxCount(), t.nc, "number of curves");
  for (int q = 0; q < 20; q++) {
    double z = c.in("z", c.p(0.3) ? t.zb[c.i(0, t.nz)] : c.p(0.2) ? std::nextafter(t.zb[c.i(0, t.nz)], 0) : c.u(0.5, t.zb[t.nz] + 1));
    int zi = zindex(t, z);
    c.eq(m.getRedshiftIndex(z), zi, "redshift bin");
    int k = c.in("curve", c.p(0.05) ? -1 : c.i(0, t.nc - 1));
    double pos = c.i(-3, t.n + 3) + c.u(-0.49, 0.49), w = t.x[0] + 0.05 * pos;
    if (c.p(0.1))
      w = c.u(500, 2000);
    if (c.p(0.1))
      w = std::nextafter(1216., c.p(0.5) ? 0 : 2000);
    if (c.p(0.1))
      w = 1216;
    c.in("w", w);
    L p = ((L)w - t.x[0]) / 0.05L;
    if (fabsl(fabsl(p - roundl(p)) - 0.5L) < 1e-6L)
      continue;
    int li = std::max(0, std::min(t.n - 1, (int)roundl(p)));
    c.eq(m.getWaveIndex(w), li, "nearest grid point");
    double exp = 1, dexp = 0;
    bool plain = w > 1216 || zi < 0;
    int want = w <= 1216 && k < 0 ? (int)ErrorCode::INTERNAL_ERROR : 0;
    if (!want && !plain) {
      exp = t.raw[zi].fluxcorr[k][li];
      int a = std::max(0, li - 1), b = std::min(t.n - 1, li + 1);
      dexp = (t.raw[zi].fluxcorr[k][b] - t.raw[zi].fluxcorr[k][a]) / (t.x[b] - t.x[a]);
    }
    double g = 0;
    std::tuple<double, double> gd;
    c.eq(hn::code([&] { g = m.getCorrection(z, k, w); }), want, "undefined curve refused");
    c.eq(hn::code([&] { gd = m.getCorrectionAndDerivLbdaRest(z, k, w); }), want, "undefined curve refused (with slope)");
    if (want)
      continue;
    c.close(g, exp, 0, 0, "correction");
    c.close(std::get<0>(gd), exp, 0, 0, "correction (with slope)");
    c.close(std::get<1>(gd), dexp, 1e-9, 1e-9, "slope of the correction");
  }
  for (int q = 0; q < 10; q++) {
    double a = t.x[0] + 0.05 * (c.i(-4, t.n + 2) + c.u(0.01, 0.99)), b = a + 0.05 * (c.p(0.3) ? c.u(0.001, 0.5) : c.i(0, t.n)) + 0.001;
    L pa = ((L)a - t.x[0]) / 0.05L, pb = ((L)b - t.x[0]) / 0.05L;
    if (fabsl(pa - roundl(pa)) < 1e-6L || fabsl(pb - roundl(pb)) < 1e-6L)
      continue;
    int i = std::max(0, std::min(t.n - 1, (int)ceill(pa))), j = std::max(0, std::min(t.n - 1, (int)floorl(pb)));
    TFloat64Range r(c.in("begin", a), c.in("end", b));
    bool raw = c.p(0.5);
    auto id = m.getWaveRangeIndices(r, raw);
    c.eq(id.GetBegin(), i, "first grid point of a range");
    c.eq(id.GetEnd(), j, "last grid point of a range");
    auto v = m.getWaveVector(r, raw);
    c.eq((int)v.size(), std::max(0, j - i + 1), "number of grid points of a range");
    for (int k = 0; k < (int)v.size(); k++)
      c.close(v[k], t.x[i + k], 1e-13, 0, "wavelength of a grid point");
    double z = c.u(0.5, t.zb[t.nz] + 1);
    int zi = zindex(t, z), k = c.i(0, t.nc - 1);
    std::pair<TFloat64List, TFloat64List> wc;
    int e = hn::code([&] { wc = m.getWaveAndCorrectionVector(r, z, k); });
    c.eq(e, j < i ? (int)ErrorCode::INTERNAL_ERROR : 0, "range without grid points refused");
    if (e)
      continue;
    c.eq(wc.first.size(), v.size(), "number of wavelengths");
    c.eq(wc.second.size(), v.size(), "number of corrections");
    for (int q2 = 0; q2 < (int)v.size(); q2++) {
      c.close(wc.first[q2], t.x[i + q2], 1e-13, 0, "wavelength of a correction");
      c.close(wc.second[q2], zi < 0 ? 1 : t.raw[zi].fluxcorr[k][i + q2], 0, 0, "correction of a range");
    }
  }
}
// the convolved curve at one fine wavelength, recomputed
static bool convolved(Tab const &t, TFloat64List const &arr, int z, TFloat64Range const &cr, double sig, int i, L &exp) {
  L zc = ((L)t.zb[z] + t.zb[z + 1]) / 2, lo = cr.GetBegin() / (1 + (L)t.zb[z + 1]), hi = cr.GetEnd() / (1 + (L)t.zb[z]);
  lo = std::max(lo, (L)t.x[0]);
  hi = std::min(hi, (L)t.x[t.n - 1]);
  if (fabsl(t.x[i] - lo) < 1e-6 || fabsl(t.x[i] - hi) < 1e-6)
    return false;
  exp = 0;
  if (t.x[i] < lo || t.x[i] > hi)
    return true;
  L half = sig * 8 / 2 / (1 + zc), sum = 0, tot = 0;
  for (int k = 0; k < t.n; k++) {
    L d = fabsl((L)t.x[k] - t.x[i]);
    if (fabsl(d - half) < 1e-6)
      return false;
    if (d > half)
      continue;
    L u = d * (1 + zc) / sig, p = expl(-0.5L * u * u);
    sum += p;
    tot += p * arr[k];
  }
  exp = tot / sum;
  return true;
}
static void check(hn::Case &c, Tab &t, TFloat64Range const &cr, double sig, const char *what) {
  for (int z = 0; z < t.nz; z++) {
    c.eq((int)t.m->m_corrections[z].lbda.size(), t.n, "size of the fine grid");
    for (int k = 0; k < t.nc; k++) {
      auto &f = t.m->m_corrections[z].fluxcorr[k];
      c.eq((int)f.size(), t.n, "size of a convolved curve");
      for (int i = 0; i < t.n; i++) {
        L exp;
        if (convolved(t, t.raw[z].fluxcorr[k], z, cr, sig, i, exp)) {
          c.in("bin", z);
          c.in("index", i);
          c.close(f[i], (double)exp, 1e-9, 1e-12, what);
        }
      }
    }
  }
}
CASES(convolution, 1500) {
  Tab t = table(c, true);
  double sig = c.in("sigma", c.pick<double>({0.02, 0.1, 0.5, c.u(0.02, 3)}));
  double a = c.p(0.3) ? 1000 : t.x[c.i(0, t.n - 1)] * (1 + c.u(t.zb[0], t.zb[t.nz])), b = c.p(0.3) ? 20000 : a * c.u(1.0001, 1.01);
  TFloat64Range cr(c.in("begin", a), c.in("end", b));
  auto lsf = std::make_shared<CLSFGaussianConstantWidth>(sig);
  auto empty = hn::code([&] { t.m->ConvolveByLSFOneCurve({}, t.x, t.x, TFloat64Range(1, 2), lsf); });
  c.eq(empty, (int)ErrorCode::INTERNAL_ERROR, "empty curve refused");
  t.m->convolveByLSF(lsf, cr);
  c.eq(t.m->isConvolved(), true, "recorded as convolved");
  c.eq((int)t.m->m_corrections.size(), t.nz, "number of redshift bins");
  check(c, t, cr, sig, "convolved curve");
}
CASES(finding_second_convolution, 1) {
  Tab t = table(c, true);
  t.m->convolveByLSF(std::make_shared<CLSFGaussianConstantWidth>(0.05), TFloat64Range(1000, 20000));
  t.m->convolveByLSF(std::make_shared<CLSFGaussianConstantWidth>(1.), TFloat64Range(1000, 20000));
  check(c, t, TFloat64Range(1000, 20000), 1., "a second call of convolveByLSF keeps the curves of the first line spread function");
}
HARNESS_MAIN
