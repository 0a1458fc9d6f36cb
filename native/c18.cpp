#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/line/lineprofileASYM.h"
#include "RedshiftLibrary/line/lineprofileASYMFIT.h"
#include "RedshiftLibrary/line/lineprofileLOR.h"
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/line/lineprofileSYMIGM.h"
#include "RedshiftLibrary/spectrum/LSFConstantResolution.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#undef private
#undef protected
using namespace NSEpic;
typedef long double L;
// independent closed forms
static L skewval(L u, L al) { return expl(-u * u / 2) * (1 + erfl(al * u / sqrtl(2))); }
static L m0of(std::string const &m, L al) {
  L d = al / sqrtl(1 + al * al), mz = d * sqrtl(2 / M_PIl);
  if (m == "mean")
    return mz;
  if (m == "mode") {
    L g1 = (4 - M_PIl) / 2 * powl(d * sqrtl(2 / M_PIl), 3) / powl(1 - 2 * d * d / M_PIl, 1.5L);
    return mz - g1 * sqrtl(1 - mz * mz) / 2 - (al > 0 ? expl(-2 * M_PIl / al) / 2 : 0);
  }
  return 0;
}
template <class F> static L deriv(F f, L h) { return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h); }
CASES(symmetric, 4000) {
  bool lor = c.p(0.3);
  double x0 = c.in("x0", c.u(3000, 20000)), s = c.in("sigma", std::pow(10., c.u(-1, 2))), a = c.in("A", c.u(-5, 5));
  double x = c.in("x", x0 + s * c.u(-6, 6)), ns = c.u(1, 10);
  c.in("lorentzian", lor);
  L u = ((L)x - x0) / s;
  if (lor) {
    CLineProfileLOR p(ns);
    c.close(p.GetLineProfileVal(x, x0, s), 1 / (1 + u * u), 1e-12, 0, "lorentzian");
    c.close(p.GetLineFlux(x0, s, a), a * s * M_PIl, 1e-12, 0, "area of a lorentzian");
    c.close(p.GetNSigmaSupport(), 2 * ns, 1e-14, 0, "support");
    c.eq(hn::code([&] { p.GetLineProfileDerivX0(x, x0, s); }), (int)ErrorCode::INTERNAL_ERROR, "no derivative");
    c.eq(hn::code([&] { p.GetLineProfileDerivSigma(x, x0, s); }), (int)ErrorCode::INTERNAL_ERROR, "no derivative");
    return;
  }
  CLineProfileSYM p(ns);
  c.close(p.GetNSigmaSupport(), ns, 1e-14, 0, "support");
  c.close(p.GetLineProfileVal(x, x0, s), expl(-u * u / 2), 1e-11, 1e-300, "gaussian");
  c.close(p.GetLineFlux(x0, s, a), a * s * sqrtl(2 * M_PIl), 1e-12, 0, "area of a gaussian");
  c.close(p.GetLineProfileDerivX0(x, x0, s), deriv([&](L h) { L v = ((L)x - x0 - h) / s; return expl(-v * v / 2); }, 1e-3L * s), 1e-6, 1e-9 / s, "derivative with respect to the centre");
  c.close(p.GetLineProfileDerivSigma(x, x0, s), deriv([&](L h) { L v = ((L)x - x0) / (s + h); return expl(-v * v / 2); }, 1e-3L * s), 1e-6, 1e-9 / s, "derivative with respect to the width");
}
CASES(skewed, 8000) {
  auto m = c.in("centering", c.pick<std::string>({"none", "mean", "mode"}));
  TAsymParams q{c.u(0.3, 3), c.p(0.1) ? 0. : c.u(0, 7), m == "none" && c.p(0.9) ? 0. : c.p(0.3) ? 0. : c.u(-1, 1)};
  int nan = c.p(0.1) ? c.i(1, 3) : 0;
  if (nan)
    (nan == 1 ? q.sigma : nan == 2 ? q.alpha : q.delta) = NAN;
  c.in("sigma_coeff", q.sigma); c.in("alpha", q.alpha); c.in("delta", q.delta);
  double ns = c.u(1, 10);
  CLineProfileASYM p0(ns, q, m);
  CLineProfileASYMFIT p1(ns, q, m);
  bool fit = c.in("fit", c.p(0.5));
  CLineProfileASYM &p = fit ? p1 : p0;
  double x0 = c.in("x0", c.u(3000, 20000)), s = c.in("sigma", std::pow(10., c.u(-1, 2))), a = c.in("A", c.u(-5, 5));
  double x = c.in("x", x0 + s * q.sigma * c.u(-4, 4));
  if (nan)
    x = x0 + s * c.u(-4, 4);
  bool bad = nan || (m == "none" && q.delta != 0);
  int e = bad ? (int)ErrorCode::INTERNAL_ERROR : 0;
  double v = 0, dx = 0, ds = 0;
  c.eq(hn::code([&] { v = p.GetLineProfileVal(x, x0, s); }), e, "refused parameters (value)");
  c.eq(hn::code([&] { dx = p.GetLineProfileDerivX0(x, x0, s); }), e, "refused parameters (centre)");
  c.eq(hn::code([&] { ds = p.GetLineProfileDerivSigma(x, x0, s); }), e, "refused parameters (width)");
  if (bad)
    return;
  L k = q.sigma, al = q.alpha, de = q.delta, m0 = m0of(m, al);
  auto f = [&](L c0, L w) { return skewval(((L)x - c0 + k * w * m0 + de) / (k * w), al); };
  c.close(v, f(x0, s), 1e-10, 1e-15, "skewed gaussian");
  c.close(dx, deriv([&](L h) { return f(x0 + h, s); }, 1e-3L * s * k), 1e-6, 1e-8 / (s * q.sigma), "derivative with respect to the centre");
  c.close(ds, deriv([&](L h) { return f(x0, s + h); }, 1e-3L * s / (1 + fabsl(de))), 1e-6, 1e-8 * (1 + std::fabs(q.delta) / s) / s, "derivative with respect to the width");
  c.close(p.GetLineFlux(x0, s, a), a * s * k * sqrtl(2 * M_PIl), 1e-12, 0, "area");
  c.close(p.GetNSigmaSupport(), ns * k * (m == "none" ? 1. : 2.5), 1e-13, 0, "support");
  if (c.p(0.02)) {
    // numerical area and position of the centre
    L sum = 0, mean = 0, best = -1, at = 0;
    int n = 40000;
    for (int i = 0; i <= n; i++) {
      L y = -12 + 24.L * i / n, w = (L)p.GetLineProfileVal(x0 + y * s * q.sigma - de, x0, s);
      sum += w, mean += w * y;
      if (w > best)
        best = w, at = y;
    }
    c.close((double)(sum * 24 / n * s * k), s * k * sqrtl(2 * M_PIl), 1e-6, 0, "numerical area");
    if (m == "mean")
      c.close((double)(mean / sum), 0., 0, 1e-5, "centred on the mean");
    if (m == "mode")
      c.close((double)at, 0., 0, 0.02, "centred on the mode");
  }
}
CASES(fitparams, 500) {
  CLineProfileASYMFIT p(4.);
  TAsymParams q{c.u(0.3, 3), c.u(0, 7), c.u(-1, 1)};
  int nan = c.i(0, 3);
  if (nan)
    (nan == 1 ? q.sigma : nan == 2 ? q.alpha : q.delta) = NAN;
  c.in("nan", nan);
  p.SetAsymParams(q);
  auto g = p.GetAsymParams();
  auto eq = [](double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); };
  c.check(eq(g.sigma, q.sigma) && eq(g.alpha, q.alpha) && eq(g.delta, q.delta), "parameters set");
  c.eq<int>(p.isValid(), !nan, "validity");
  p.resetParams();
  g = p.GetAsymParams();
  c.check(g.sigma == 2 && g.alpha == 0 && g.delta == 0, "reset");
}
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> igm(double a, double b, int ncurve, int nz) {
  std::vector<MeiksinCorrection> m;
  TFloat64List z, l;
  for (int k = 0; k <= nz; k++)
    z.push_back(2 + 0.5 * k);
  for (int k = 0; k <= 1015; k++)
    l.push_back(200. + k);
  for (int i = 0; i < nz; i++) {
    std::vector<TFloat64List> cs;
    for (int j = 0; j < ncurve; j++) {
      TFloat64List f;
      for (double x : l)
        f.push_back(1 / (1 + (a + 0.05 * j + 0.03 * i) * (1 + b * std::sin(x / 40.))));
      cs.push_back(f);
    }
    m.emplace_back(l, cs);
  }
  auto r = std::make_shared<CSpectrumFluxCorrectionMeiksin>(m, z);
  // no instrument smoothing: curves taken as they are on the fine grid
  TFloat64List fine;
  for (int k = 0; k <= 10150; k++)
    fine.push_back(200. + 0.1 * k);
  r->m_fineLambdaSize = fine.size();
  r->m_finegridstep = 0.1;
  r->m_corrections.resize(nz);
  for (int i = 0; i < nz; i++) {
    r->m_corrections[i].lbda = fine;
    for (int j = 0; j < ncurve; j++) {
      TFloat64List f;
      for (double x : fine)
        f.push_back(1 / (1 + (a + 0.05 * j + 0.03 * i) * (1 + b * std::sin(x / 40.))));
      r->m_corrections[i].fluxcorr.push_back(f);
    }
  }
  r->m_convolved = true;
  return r;
}
static std::shared_ptr<CSpectrumFluxCorrectionMeiksin> const &tab() {
  static auto t = igm(0.5, 0.3, 7, 6);
  return t;
}
CASES(extinguished, 1500) {
  CLineProfileSYMIGM p(c.p(0.03) ? nullptr : tab());
  bool none = !p.m_igmCorrectionMeiksin;
  int j = c.in("curve", c.i(-1, 6));
  double z = c.in("redshift", c.u(1.5, 5.5));
  p.SetSymIgmParams({j, z});
  c.eq(p.GetSymIgmParams().m_igmidx, j, "curve set");
  c.eq(p.GetSymIgmParams().m_redshift, z, "redshift set");
  double x0 = c.in("x0", (1 + z) * c.u(1180, 1250)), s = c.in("sigma", c.u(1, 40)), x = c.in("x", x0 + s * c.u(-4, 4));
  int e = none ? (int)ErrorCode::INTERNAL_ERROR : 0;
  double v = 0, dx = 0, ds = 0;
  c.eq(hn::code([&] { v = p.GetLineProfileVal(x, x0, s); }), e, "no IGM (value)");
  c.eq(hn::code([&] { dx = p.GetLineProfileDerivX0(x, x0, s); }), e, "no IGM (centre)");
  c.eq(hn::code([&] { ds = p.GetLineProfileDerivSigma(x, x0, s); }), e, "no IGM (width)");
  if (none)
    return;
  int jj = j == -1 ? 3 : j;
  double t = tab()->getCorrection(z, jj, x / (1 + z));
  double sl = std::get<1>(tab()->getCorrectionAndDerivLbdaRest(z, jj, x / (1 + z)));
  L u = ((L)x - x0) / s, ga = expl(-u * u / 2);
  c.close(v, ga * t, 1e-11, 1e-300, "gaussian times transmission");
  c.close(ds, ga * u * u / s * t, 1e-11, 1e-300, "derivative with respect to the width");
  c.close(dx, ga * u / s * t - ga * x / (1 + z) / x0 * sl, 1e-9, 1e-14, "derivative with respect to the centre");
  // beyond Lyman alpha on its whole window: the plain area
  if (x0 / (1 + z) - s / (1 + z) * N_SIGMA_SUPPORT / 2 > RESTLAMBDA_LYA)
    c.close(p.GetLineFlux(x0, s, 2.), 2 * s * sqrtl(2 * M_PIl), 1e-12, 0, "area without extinction");
  p.SetSymIgmFit(c.in("fit", c.p(0.5)));
  bool fit = p.isSymIgmFit();
  p.resetParams();
  c.eq(p.m_igmidx, fit ? -1 : j, "reset only when fitted");
  c.check(fit ? std::isnan(p.m_redshift) : p.m_redshift == z, "reset only when fitted");
}
// the recorded defect: area of an extinguished line
CASES(finding_igm_flux, 1) {
  CLineProfileSYMIGM p(tab());
  double z = 2.1, x0 = 1200 * (1 + z), s = 2;
  p.SetSymIgmParams({1, z});
  L sum = 0;
  int n = 20000;
  for (int i = 0; i <= n; i++)
    sum += p.GetLineProfileVal(x0 + s * (-4 + 8. * i / n), x0, s);
  c.close(p.GetLineFlux(x0, s, 1.), (double)(sum * 8 * s / n), 0.05, 0, "CLineProfileSYMIGM::GetLineFlux of a line under Lyman alpha is not the area of its profile");
}
HARNESS_MAIN
