#include <algorithm>
#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/common/flag.h"
#include "RedshiftLibrary/statistics/deltaz.h"
#include "RedshiftLibrary/statistics/pdfcandidatesz.h"
#include "RedshiftLibrary/statistics/pdfcandidateszresult.h"
#undef private
#undef protected
using namespace NSEpic;
typedef long double LD;
static const int IE = (int)ErrorCode::INTERNAL_ERROR;
static TFloat64List grid(hn::Case &c, int n) {
  int kind = c.i(0, 2);
  double z0 = c.u(0, 3), st = std::pow(10., c.u(-4, -2));
  TFloat64List z(n);
  for (int k = 0; k < n; k++)
    z[k] = kind == 0   ? z0 + k * st
           : kind == 1 ? (1 + z0) * std::exp(k * st) - 1
                       : (k ? z[k - 1] + st * c.u(0.2, 5.) : z0);
  return z;
}
// log posterior: peaks of varying width plus some roughness
static TFloat64List logpdf(hn::Case &c, TFloat64List const &z) {
  int n = z.size(), np = c.i(1, 4);
  double rough = c.pick<double>({0., 0., 0.1, 5.}), span = z.back() - z[0] + 1e-4;
  std::vector<double> m, s, h;
  for (int k = 0; k < np; k++) {
    m.push_back(z[c.i(0, n - 1)]);
    s.push_back(span * std::pow(10., c.u(-3, 0)));
    h.push_back(c.u(-20, 20));
  }
  TFloat64List p(n);
  for (int i = 0; i < n; i++) {
    LD a = expl(-60.L);
    for (int k = 0; k < np; k++)
      a += expl(h[k] - 0.5L * (z[i] - m[k]) * (z[i] - m[k]) / s[k] / s[k]);
    p[i] = logl(a) + rough * c.u(-1, 1);
  }
  return p;
}
// curvature of y0-y around sample i over h samples each side; ok=false: too close to call
static LD curv(TFloat64List const &y, TFloat64List const &x, int i, int h, bool &ok) {
  int n = x.size(), lo = std::max(0, i - h), hi = std::min(n - 1, i + h);
  LD a = 0, b = 0, m = 0;
  for (int k = lo; k <= hi; k++) {
    LD d = ((LD)x[k] - x[i]) * ((LD)x[k] - x[i]), v = d * ((LD)y[i] - y[k]);
    a += v;
    m += fabsl(v);
    b += d * d;
  }
  ok = fabsl(a) > 1e-6L * m;
  return a / b;
}
static LD width(TFloat64List const &y, TFloat64List const &x, int i, int &nwarn, bool &ok) {
  LD c5 = curv(y, x, i, 5, ok);
  nwarn = 0;
  if (!ok)
    return 0;
  if (c5 > 0)
    return sqrtl(1 / c5);
  LD c2 = curv(y, x, i, 2, ok);
  nwarn = 1;
  if (!ok)
    return 0;
  return c2 > 0 ? sqrtl(1 / c2) : 1e-3L;
}
CASES(peak_width, 20000) {
  int n = c.i(2, c.p(0.4) ? 6 : 60);
  auto z = c.in("z", grid(c, n));
  auto y = c.in("logpdf", c.p(0.3) ? c.vec(n, -10, 10) : logpdf(c, z));
  CDeltaz D;
  int i = c.in("i", c.i(0, n - 1)), nw = 0;
  bool ok;
  LD e = width(y, z, i, nw, ok);
  c.need(ok);
  Flag.resetFlag();
  double got = D.GetDeltaz(z, y, z[i]);
  c.close(got, e, 1e-7, 0, "width of the peak");
  bool w = (Flag.getBitMask() >> (int)WarningCode::DELTAZ_COMPUTATION_FAILED) & 1;
  c.eq(w, nw > 0, "warned of a failed estimate");
  Flag.resetFlag();
  double off = c.in("off", c.pick<double>({z[0] - 1, z.back() + 1, (z[0] + z[1]) / 2}));
  c.eq(hn::code([&] { D.GetDeltaz(z, y, off); }), IE, "redshift off the grid is refused");
  c.eq(hn::code([&] { D.GetDeltaz({}, {}, z[0]); }), IE, "empty grid is refused");
}
CASES(indices, 10000) {
  int n = c.i(1, 30), h = c.in("half", c.i(0, 12));
  auto z = c.in("z", grid(c, n));
  int i = c.in("i", c.i(0, n - 1)), a, b, e;
  CDeltaz().GetIndices(z, z[i], h, a, b, e);
  c.eq(a, i, "sample of the redshift");
  c.eq(b, std::max(0, i - h), "first sample");
  c.eq(e, std::min(n - 1, i + h), "last sample");
}
struct Cd {
  std::string id;
  double z, dz, pr, b, e;
  bool dup;
};
CASES(windows, 60000) {
  int nc = c.in("n", c.i(1, 6));
  double b = c.in("begin", c.u(0, 1)), e = c.in("end", b + c.u(0.01, 2));
  double sc = c.pick<double>({0.3, 0.05, 0.01}) * (e - b);
  bool tie = c.p(0.1);
  TCandidateZbyID m;
  std::vector<Cd> v;
  std::ostringstream o;
  for (int k = 0; k < nc; k++) {
    Cd d;
    d.id = "c" + std::to_string(k);
    d.z = k && c.p(0.6) ? std::min(e, std::max(b, v[c.i(0, k - 1)].z + c.u(-2, 2) * sc)) : c.u(b, e);
    if (c.p(0.05))
      d.z = c.p(0.5) ? b : e;
    for (auto &x : v)
      c.need(x.z != d.z);
    d.dz = c.p(0.1) ? -1 : sc * c.u(0.05, 1.);
    d.pr = tie ? 0.5 : c.u();
    o << d.id << ":z=" << d.z << ",dz=" << d.dz << ",p=" << d.pr << " ";
    auto p = std::make_shared<TCandidateZ>();
    p->Redshift = d.z;
    p->Deltaz = d.dz;
    p->ValProba = d.pr;
    m[d.id] = p;
    v.push_back(d);
  }
  c.in("candidates", o.str());
  CPdfCandidatesZ P(m);
  TCandidateZRangebyID r;
  r["stale"] = TFloat64Range(0, 1);
  auto dup = P.SetIntegrationRanges(TFloat64Range(b, e), r);
  c.eq((int)r.size(), nc, "one window per candidate");
  for (auto &d : v) {
    if (d.dz == -1)
      d.dz = 1e-3 * (1 + d.z);
    c.close(P.m_candidates.at(d.id)->Deltaz, d.dz, 1e-14, 0, "width of " + d.id);
    c.check(r.count(d.id), "window of " + d.id);
    d.b = std::max(b, d.z - 3 * d.dz);
    d.e = std::min(e, d.z + 3 * d.dz);
    d.dup = std::find(dup.begin(), dup.end(), d.id) != dup.end();
  }
  for (auto &x : dup)
    c.check(r.count(x) && x != "stale", "a duplicate is a candidate");
  std::sort(v.begin(), v.end(), [](Cd const &x, Cd const &y) { return x.z > y.z; });
  double t = 1e-12 * (1 + e);
  for (int k = 0; k < nc; k++) {
    auto &d = v[k];
    auto w = r.at(d.id);
    bool up = k && v[k - 1].b < d.e, dn = k + 1 < nc && v[k + 1].e > d.b;
    if (!d.dup) {
      c.check(w.GetBegin() <= d.z && d.z <= w.GetEnd(), "the window contains its candidate " + d.id);
      c.check(w.GetBegin() >= d.b - t && w.GetEnd() <= d.e + t, "the window is within three widths and the posterior");
    }
    if (!up)
      c.close(w.GetEnd(), d.e, 0, t, "upper end of a window that meets no other above");
    if (!dn)
      c.close(w.GetBegin(), d.b, 0, t, "lower end of a window that meets no other below");
    if (d.dup)
      c.check(up || dn, "an isolated candidate is kept");
  }
  for (int k = 0; k + 1 < nc; k++) {
    auto &h = v[k], &l = v[k + 1];
    auto wh = r.at(h.id), wl = r.at(l.id);
    double ov = l.e - h.b;
    if (!h.dup && !l.dup)
      c.check(wh.GetBegin() >= wl.GetEnd() - t, "windows of kept neighbours do not overlap");
    // a pair that meets no other candidate
    bool up = k && v[k - 1].b < h.e, dn = k + 2 < nc && v[k + 2].e > l.b;
    if (up || dn)
      continue;
    double rh = ov / (h.e - h.b), rl = ov / (l.e - l.b);
    if (ov <= 0 || std::fabs(ov) < t || std::fabs(rh - 0.3) < 1e-9 || std::fabs(rl - 0.3) < 1e-9)
      continue;
    if (rh < 0.3 && rl < 0.3) {
      c.check(!h.dup && !l.dup, "a small overlap keeps both candidates");
      c.close(wh.GetBegin(), (l.e + h.b) / 2, 0, t, "the overlap is split in the middle (upper)");
      c.close(wl.GetEnd(), (l.e + h.b) / 2, 0, t, "the overlap is split in the middle (lower)");
    } else {
      c.eq((bool)h.dup, l.pr > h.pr, "the less probable of two close candidates is the duplicate (upper)");
      c.eq((bool)l.dup, !(l.pr > h.pr), "the less probable of two close candidates is the duplicate (lower)");
    }
  }
}
CASES(separated_windows, 20000) {
  // kept candidates with a duplicate between them
  int nc = 3;
  double sc = c.u(0.001, 0.01);
  TCandidateZbyID m;
  std::ostringstream o;
  std::vector<Cd> v(nc);
  double z = 1;
  for (int k = 0; k < nc; k++) {
    v[k].z = z;
    z += sc * c.u(0.1, 2);
    v[k].dz = sc;
    v[k].pr = c.u();
    v[k].id = "c" + std::to_string(k);
    auto p = std::make_shared<TCandidateZ>();
    p->Redshift = v[k].z;
    p->Deltaz = sc;
    p->ValProba = v[k].pr;
    o << v[k].z << " (" << v[k].pr << ") ";
    m[v[k].id] = p;
  }
  c.in("candidates", o.str());
  c.in("width", sc);
  CPdfCandidatesZ P(m);
  TCandidateZRangebyID r;
  auto dup = P.SetIntegrationRanges(TFloat64Range(0, 3), r);
  for (int i = 0; i < nc; i++)
    for (int j = i + 1; j < nc; j++) {
      auto kept = [&](int k) { return std::find(dup.begin(), dup.end(), v[k].id) == dup.end(); };
      if (kept(i) && kept(j))
        c.check(r[v[j].id].GetBegin() >= r[v[i].id].GetEnd() - 1e-12,
                j == i + 1 ? "windows of kept neighbours do not overlap" : "windows of two kept candidates overlap when the one between them is a duplicate");
    }
}
CASES(compute, 8000) {
  int n = c.i(12, 120);
  auto z = c.in("z", grid(c, n));
  auto y = c.in("logpdf", logpdf(c, z));
  std::set<int> is;
  int nc = c.i(1, 5);
  for (int k = 0; k < nc; k++)
    is.insert(c.p(0.5) ? c.i(0, n - 1) : (int)(std::max_element(y.begin() + (k * n) / nc, y.begin() + ((k + 1) * n) / nc) - y.begin()));
  std::vector<int> iv(is.begin(), is.end());
  c.in("i", iv);
  TFloat64List cz;
  for (int i : iv)
    cz.push_back(z[i]);
  bool shuffle = c.p(0.5);
  if (shuffle)
    std::reverse(cz.begin(), cz.end());
  CPdfCandidatesZ P(cz), Q(cz);
  for (size_t k = 0; k < cz.size(); k++) {
    std::string id = "EXT" + std::to_string(k);
    c.check(P.m_candidates.count(id) && P.m_candidates[id]->Redshift == cz[k], "candidate built from its redshift");
    int i = std::find(z.begin(), z.end(), cz[k]) - z.begin(), nw;
    bool ok;
    LD w = width(y, z, i, nw, ok);
    c.need(ok);
    Q.m_candidates[id]->Deltaz = w;
    Q.m_candidates[id]->ValProba = P.m_candidates[id]->ValProba = std::exp(y[i]);
  }
  TCandidateZRangebyID r;
  auto dup = Q.SetIntegrationRanges(TFloat64Range(z), r);
  auto res = P.Compute(z, y);
  auto &rk = res->m_ranked_candidates;
  c.eq(rk.size(), cz.size(), "one rank per candidate");
  std::set<std::string> seen;
  for (size_t k = 0; k < rk.size(); k++) {
    auto &id = rk[k].first;
    auto &d = *rk[k].second;
    c.check(seen.insert(id).second && P.m_candidates.count(id) && P.m_candidates[id].get() == rk[k].second.get(), "each candidate is ranked once");
    if (k)
      c.check(rk[k - 1].second->ValSumProba >= d.ValSumProba, "decreasing probability");
    c.close(d.Deltaz, Q.m_candidates[id]->Deltaz, 1e-7, 0, "width");
    if (std::find(dup.begin(), dup.end(), id) != dup.end()) {
      c.eq(d.ValSumProba, 0., "probability of a duplicate");
      continue;
    }
    auto w = r[id];
    int lo = 0, hi = n - 1;
    bool edge = false;
    for (int i = 0; i < n; i++) {
      edge |= std::fabs(z[i] - w.GetBegin()) < 1e-9 * (1 + z[i]) && i > 0;
      edge |= std::fabs(z[i] - w.GetEnd()) < 1e-9 * (1 + z[i]) && i + 1 < n;
      if (z[i] <= w.GetBegin())
        lo = i;
      if (z[n - 1 - i] >= w.GetEnd())
        hi = n - 1 - i;
    }
    if (edge)
      continue;
    c.eq(d.ValSumProbaZmin, z[lo], "lower limit of the integral");
    c.eq(d.ValSumProbaZmax, z[hi], "upper limit of the integral");
    LD s = 0;
    for (int i = lo + 1; i <= hi; i++)
      s += (expl(y[i]) + expl(y[i - 1])) / 2 * ((LD)z[i] - z[i - 1]);
    c.close(d.ValSumProba, s, 1e-6, 0, "probability is the integral of the posterior over its window");
  }
}
HARNESS_MAIN
