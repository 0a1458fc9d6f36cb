#include <algorithm>
#include <numeric>
#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/operator/logZPdfResult.h"
#include "RedshiftLibrary/operator/pdfz.h"
#undef private
#undef protected
using namespace NSEpic;
typedef long double LD;
static TFloat64List grid(hn::Case &c, int n) {
  int kind = c.i(0, 2);
  TFloat64List z(n);
  double z0 = c.u(0, 3), st = std::pow(10., c.u(-5, -1));
  for (int k = 0; k < n; k++) {
    z[k] = kind == 0   ? z0 + k * st
           : kind == 1 ? (1 + z0) * std::exp(k * st) - 1
                       : (k ? z[k - 1] + st * c.u(0.2, 5.) : z0);
  }
  return z;
}
// log of the trapezoidal integral, long double, independent formulation
static LD ltz(std::vector<LD> const &v, TFloat64List const &z) {
  LD m = *std::max_element(v.begin(), v.end());
  LD s = 0;
  for (size_t k = 1; k < z.size(); k++)
    s += (expl(v[k] - m) + expl(v[k - 1] - m)) / 2 * ((LD)z[k] - (LD)z[k - 1]);
  return m + logl(s);
}
static std::vector<LD> ld(TFloat64List const &v) {
  return std::vector<LD>(v.begin(), v.end());
}
CASES(logsumexp, 4000) {
  int n = c.i(2, c.p(0.3) ? 4 : 40);
  auto z = c.in("z", grid(c, n));
  double sc = c.pick<double>({1, 10, 1000, 1e5});
  auto v = c.in("v", c.vec(n, -sc, c.p(0.5) ? 0 : sc));
  c.close(COperatorPdfz::logSumExpTrick(v, z), ltz(ld(v), z), 1e-9, 1e-8,
          "logSumExpTrick");
}
static TFloat64List prior(hn::Case &c, int n) {
  // priors are not necessarily normalised
  double off = c.pick<double>({0., 0., -30., 30., -600., 600.});
  if (c.p(0.3))
    return TFloat64List(n, off + c.u(-3, 3));
  return c.vec(n, off - 5, off + 5);
}
CASES(computepdf, 4000) {
  int n = c.i(2, c.p(0.3) ? 4 : 40);
  auto z = c.in("z", grid(c, n));
  double sc = c.pick<double>({1, 30, 2000, 1e5});
  auto m = c.in("merit", c.vec(n, 0, sc));
  auto p = c.in("prior", prior(c, n));
  double cst = c.in("cstLog", c.u(-50, 50));
  TFloat64List out = c.p(0.5) ? TFloat64List() : TFloat64List(c.i(1, 50), 3.);
  double ev = 12;
  COperatorPdfz::ComputePdf(m, z, cst, p, out, ev);
  c.eq<size_t>(out.size(), z.size(), "posterior size");
  LD P = ltz(ld(p), z);
  std::vector<LD> x(n);
  for (int k = 0; k < n; k++)
    x[k] = -0.5L * m[k] + p[k] - P;
  LD L = ltz(x, z);
  c.close(ev, cst + L, 1e-9, 1e-7, "log evidence");
  for (int k = 0; k < n; k++)
    c.close(out[k], x[k] - L, 1e-9, 1e-7, "log posterior");
  c.close(ltz(ld(out), z), 0, 0, 1e-7, "log integral of the posterior");
}
CASES(sizes, 200) {
  int n = c.in("n", c.i(0, 4));
  auto z = grid(c, n);
  int np = c.in("nprior", std::max(0, n + c.i(-1, 1)));
  TFloat64List m(n, 1.), p(np, 0.), out;
  double ev;
  int e = hn::code([&] { COperatorPdfz::ComputePdf(m, z, 0, p, out, ev); });
  bool bad = n < 1 || (n >= 2 && np != n);
  c.eq(e, bad ? (int)ErrorCode::INTERNAL_ERROR : 0, "error code");
}
HARNESS_MAIN
