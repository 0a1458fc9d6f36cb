#include <algorithm>
#include <cfloat>
#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/statistics/priorhelper.h"
#include "RedshiftLibrary/statistics/zprior.h"
#undef private
#undef protected
using namespace NSEpic;
typedef long double LD;
static TFloat64List grid(hn::Case &c, int n) {
  int kind = c.i(0, 2);
  TFloat64List z(n);
  double z0 = c.u(0, 3), st = std::pow(10., c.u(-4, -1));
  for (int k = 0; k < n; k++)
    z[k] = kind == 0   ? z0 + k * st
           : kind == 1 ? (1 + z0) * std::exp(k * st) - 1
                       : (k ? z[k - 1] + st * c.u(0.2, 5.) : z0);
  return z;
}
static LD ltz(TFloat64List const &v, TFloat64List const &z) {
  LD m = *std::max_element(v.begin(), v.end()), s = 0;
  for (size_t k = 1; k < z.size(); k++)
    s += (expl(v[k] - m) + expl(v[k - 1] - m)) / 2 * ((LD)z[k] - (LD)z[k - 1]);
  return m + logl(s);
}
static const int IE = (int)ErrorCode::INTERNAL_ERROR;
CASES(priors, 12000) {
  int n = c.i(1, c.p(0.3) ? 4 : 40), which = c.in("which", c.i(0, 4));
  auto z = c.in("z", grid(c, n));
  bool norm = c.in("norm", c.p(0.6));
  CZPrior P(norm, z);
  double pen = c.in("pen", c.pick<double>({1e-50, 1e-12, 1e-3, 0.5, 2.}));
  TFloat64List exp(n), got;
  int e = 0;
  bool size_ok = true;
  if (which == 0)
    e = hn::code([&] { got = P.GetConstantLogZPrior(n); });
  if (which == 1) {
    TBoolList b(n);
    double pr = c.pick<double>({0., 0.5, 1.});
    for (int k = 0; k < n; k++) {
      b[k] = c.p(pr);
      exp[k] = b[k] ? 0 : std::log(pen);
    }
    c.in("presence", exp);
    e = hn::code([&] { got = P.GetStrongLinePresenceLogZPrior(b, pen); });
  }
  if (which == 2) {
    TInt32List b(n);
    for (int k = 0; k < n; k++) {
      b[k] = c.i(0, 4);
      exp[k] = b[k] >= 2 ? 0 : std::log(pen);
    }
    c.in("lines", b);
    e = hn::code([&] { got = P.GetNLinesSNRAboveCutLogZPrior(b, pen); });
  }
  if (which == 3) {
    auto a = c.in("p1", c.vec(n, -50, 50)), b = c.in("p2", c.vec(c.p(0.9) ? n : n + 1, -50, 50));
    size_ok = a.size() == b.size();
    for (int k = 0; k < n; k++)
      exp[k] = a[k] + b[k];
    e = hn::code([&] { got = P.CombineLogZPrior(a, b); });
  }
  if (which == 4) {
    double a = c.in("a", c.pick<double>({-1., 0., 0.5, 1., 3.}));
    size_ok = a > 0;
    for (int k = 0; k < n; k++) {
      LD x = z[k];
      LD p = (((((-54.7422088727874L * x + 1203.94994364807L) * x - 10409.6716744981L) * x + 44240.3837462642L) * x - 92914.84430357L) * x + 79004.76406L) * x - 2288.98457865L;
      if (fabsl(p) < 1e-3)
        c.need(false);
      exp[k] = (double)(logl(p < 0 ? (LD)DBL_MIN : p) * a);
    }
    double m = *std::max_element(exp.begin(), exp.end());
    for (auto &x : exp)
      x = std::max(x - m, -std::log(1e12));
    e = hn::code([&] { got = P.GetEuclidNhaLogZPrior(z, a); });
  }
  c.eq(e, !size_ok || (norm && n < 2) ? IE : 0, "error code");
  if (e)
    return;
  c.eq<int>(got.size(), n, "size");
  if (norm) {
    LD s = ltz(exp, z);
    for (auto &x : exp)
      x -= s;
  }
  for (int k = 0; k < n; k++)
    c.close(got[k], exp[k], 1e-9, 1e-7, "log prior");
  if (norm)
    c.close(ltz(got, z), 0, 0, 1e-9, "log integral");
}
CASES(helper, 6000) {
  CPriorHelper h;
  int nt = c.in("templates", c.i(1, 3));
  h.m_dz = c.in("dz", c.pick<double>({0.25, 0.1, 1.}));
  h.m_z0 = c.in("z0", c.pick<double>({0., 0.5}));
  h.setSize(nt);
  bool bad = false;
  std::vector<std::vector<TFloat64List>> t(nt), s(nt), m(nt);
  for (int k = 0; k < nt; k++) {
    h.setTNameData(k, "tpl" + std::to_string(k));
    auto mk = [&](double lo, double hi) {
      std::vector<TFloat64List> x;
      for (int q = 0; q < h.m_nZ; q++)
        x.push_back(c.vec(h.m_nEbv, lo, hi));
      return x;
    };
    t[k] = mk(1e-3, 1), s[k] = mk(-0.3, 1), m[k] = mk(-1, 1);
    h.setEZTData(k, t[k]), h.setAGausssigmaData(k, s[k]), h.setAGaussmeanData(k, m[k]);
  }
  auto pz = c.vec(h.m_nZ, 0, 1);
  pz[c.i(0, h.m_nZ - 1)] = 0;
  h.setPzData(pz);
  TFloat64List pz2(h.m_nZ + (c.p(0.5) ? 1 : -1));
  c.eq(hn::code([&] { h.setPzData(pz2); }), IE, "wrong size refused");
  double bA = c.in("bA", c.pick<double>({0., 1.})), bT = c.in("bT", c.pick<double>({0., 0.5})), bZ = c.in("bZ", c.pick<double>({0., 2.}));
  h.SetBetaA(bA), h.SetBetaTE(bT), h.SetBetaZ(bZ);
  int mode = c.in("mode", c.i(0, 1)), it = c.in("tpl", c.i(0, nt));
  int nz = c.i(1, 5);
  TRedshiftList zs(nz);
  for (auto &z : zs)
    z = c.p(0.3) ? h.m_z0 + c.i(-3, 30) * h.m_dz : c.u(h.m_z0 - 2 * h.m_dz, h.m_z0 + 28 * h.m_dz);
  c.in("z", zs);
  std::vector<int> bin(nz);
  bool out = false;
  for (int k = 0; k < nz; k++) {
    int b = (int)((zs[k] - h.m_z0) / h.m_dz);
    if (b < 0 || b >= h.m_nZ)
      out = true;
    bin[k] = std::min(std::max(b, 0), h.m_nZ - 1);
  }
  CPriorHelper::TPriorZEList r;
  int e = hn::code([&] { h.GetTplPriorData("tpl" + std::to_string(it), zs, r, mode); });
  c.eq(e, (bA <= 0 && bT <= 0 && bZ <= 0) || it >= nt || (mode == 1 && out) ? IE : 0, "error code");
  if (e)
    return;
  c.eq<int>(r.size(), nz, "one entry per redshift");
  for (int k = 0; k < nz; k++)
    for (int q = 0; q < h.m_nEbv; q++) {
      auto const &x = r[k][q];
      c.eq(x.priorTZE, t[it][bin[k]][q], "p(ebv,tpl|z)");
      c.eq(x.A_sigma, s[it][bin[k]][q], "sigma");
      c.eq(x.A_mean, m[it][bin[k]][q], "mean");
      c.close(x.logprior_precompTE, std::log(x.priorTZE), 1e-12, 0, "log p(ebv,tpl|z)");
      c.close(x.logprior_precompA, x.A_sigma > 0 ? -std::log(std::sqrt(2 * M_PI) * x.A_sigma) : std::log(1 / h.m_deltaA), 1e-10, 1e-12, "log p(A)");
      c.close(x.logprior_precompZ, pz[bin[k]] > 0 ? std::log(pz[bin[k]] / h.m_dz) : 0, 1e-10, 1e-12, "log p(z)");
      c.check(x.betaA == bA && x.betaTE == bT && x.betaZ == bZ, "weights");
    }
  int q = c.i(-1, h.m_nEbv);
  e = hn::code([&] { auto x = h.GetTZEPriorData("tpl0", q, h.m_z0 + 1e-3, 1); c.eq(x.priorTZE, t[0][0][q], "single look-up"); });
  c.eq(e, q < 0 || q >= h.m_nEbv ? IE : 0, "error code");
}
HARNESS_MAIN
