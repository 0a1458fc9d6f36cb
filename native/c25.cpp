#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/line/lineprofileSYM.h"
#include "RedshiftLibrary/spectrum/LSFFactory.h"
#undef private
#undef protected
using namespace NSEpic;
typedef long double L;
static L clip(L x, L lo, L hi) { return x < lo ? lo : x > hi ? hi : x; }
static std::shared_ptr<CLSF> make(hn::Case &c, std::string const &k, double v, TFloat64List const &x, TFloat64List const &w, int &e) {
  std::shared_ptr<CLSF> l;
  e = hn::code([&] {
    if (k == "gaussianConstantWidth")
      l = CLSFFactory::GetInstance().Create(k, std::make_shared<TLSFGaussianConstantWidthArgs>(v));
    else if (k == "gaussianConstantResolution")
      l = CLSFFactory::GetInstance().Create(k, std::make_shared<TLSFGaussianConstantResolutionArgs>(v));
    else if (k == "gaussianNISPSIM2016")
      l = CLSFFactory::GetInstance().Create(k);
    else if (k == "gaussianNISPVSSPSF201707")
      l = std::make_shared<CLSFGaussianNISPVSSPSF201707>(v);
    else
      l = CLSFFactory::GetInstance().Create(k, std::make_shared<TLSFGaussianVarWidthArgs>(x, w));
  });
  return l;
}
CASES(widths, 12000) {
  auto k = c.in("kind", c.pick<std::string>({"gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016", "gaussianNISPVSSPSF201707", "gaussianVariableWidth"}));
  double v = k == "gaussianConstantWidth" ? c.pick<double>({0., -1., c.u(0.1, 30)}) : k == "gaussianConstantResolution" ? c.pick<double>({1., 0.5, 1.0001, c.u(100, 5000)}) : c.u(0, 1);
  c.in("value", v);
  int n = c.p(0.05) ? 0 : c.i(1, 12), nw = c.p(0.9) ? n : c.i(0, 12);
  TFloat64List x(n), w(nw);
  for (int i = 0; i < n; i++)
    x[i] = i ? x[i - 1] + c.u(1, 800) : c.u(1000, 8000);
  bool neg = false;
  for (auto &y : w) {
    y = c.p(0.02) ? c.pick<double>({0., -1.}) : c.u(0.5, 30);
    neg |= y <= 0;
  }
  bool var = k == "gaussianVariableWidth";
  if (var) {
    c.in("lambdas", x);
    c.in("widths", w);
  }
  int e, want = 0;
  auto lsf = make(c, k, v, x, w, e);
  if (var)
    want = !nw || nw != n ? (int)ErrorCode::BAD_COUNTMATCH : neg ? (int)ErrorCode::INVALID_LSF : 0;
  else if ((k == "gaussianConstantWidth" && v <= 0) || (k == "gaussianConstantResolution" && v <= 1))
    want = (int)ErrorCode::INVALID_LSF;
  c.eq(e, want, "refused line spread function");
  if (e)
    return;
  for (int t = 0; t < 4; t++) {
    double l = var ? (c.p(0.3) ? x[c.i(0, n - 1)] : c.p(0.3) ? std::nextafter(c.p(0.5) ? x[0] : x[n - 1], c.p(0.5) ? 0 : 1e9) : c.u(x[0] - 300, x[n - 1] + 300)) : c.pick<double>({c.u(1, 60000), 200., 30000., c.u(3000, 9000)});
    bool cl = c.in("clip", c.p(0.5));
    c.in("lambda", l);
    double got = 0;
    int ee = hn::code([&] { got = lsf->GetWidth(l, cl); });
    L q = cl ? clip(l, var ? x[0] : 200, var ? x[n - 1] : 30000) : l, exp = 0;
    if (var) {
      bool out = q < x[0] || q > x[n - 1];
      c.eq(ee, out ? (int)ErrorCode::INSUFFICIENT_LSF_COVERAGE : 0, "wavelength outside the table");
      c.eq<int>(lsf->checkAvailability(l), l >= x[0] && l <= x[n - 1], "availability");
      if (out)
        continue;
      for (int i = 0; i < n; i++)
        if (q == x[i])
          exp = w[i];
        else if (i + 1 < n && x[i] < q && q < x[i + 1])
          exp = w[i] + (q - x[i]) / ((L)x[i + 1] - x[i]) * ((L)w[i + 1] - w[i]);
    } else {
      c.eq(ee, 0, "no error");
      if (k == "gaussianConstantWidth")
        exp = v;
      else if (k == "gaussianConstantResolution") {
        exp = q / v / 2.355L;
        c.close(CLSFGaussianConstantResolution::computeResolution(q, exp), v, 1e-12, 0, "resolution and width are inverse");
      } else if (k == "gaussianNISPSIM2016")
        exp = (q * 8.121e-4L + 7.4248L) / 2.35L;
      else {
        L a = q * 3.939e-4L + 2.191L, b = v * 13.4L / 0.355L;
        exp = sqrtl(a * a + b * b);
      }
    }
    c.close(got, exp, 1e-12, 0, "width");
    // kernel
    int m = c.i(1, 30);
    TFloat64List g(m);
    for (int i = 0; i < m; i++)
      g[i] = q + exp * c.u(-4, 4);
    L sig = lsf->GetWidth(l, true), sum = 0;
    auto ker = lsf->getNormalizedProfileVector(g, l);
    if ((int)ker.size() != m)
      return c.check(false, "one kernel value per wavelength");
    std::vector<L> p(m);
    for (int i = 0; i < m; i++) {
      L u = (g[i] - (L)l) / sig;
      sum += p[i] = expl(-u * u / 2);
    }
    if (sum < 1e-20L)
      continue;
    for (int i = 0; i < m; i++)
      c.close(ker[i], p[i] / sum, 1e-8, 1e-12, "kernel proportional to the profile and of sum one");
    if (!cl && ee == 0)
      c.close(lsf->GetProfileVal(g[0], l), expl(-((L)g[0] - l) * ((L)g[0] - l) / 2 / got / got), 1e-9, 1e-30, "profile of the width at the centre");
  }
}
HARNESS_MAIN
