#include "harness.h"
#include "RedshiftLibrary/common/range.h"
#include "RedshiftLibrary/common/vectorOperations.h"
#include "RedshiftLibrary/common/zgridparam.h"
#include <algorithm>
using namespace NSEpic;
typedef long double L;
static void ordered(hn::Case &c, TFloat64List const &r, double b, double e, double tol) {
  c.check(!r.empty(), "grid is not empty");
  for (size_t k = 0; k < r.size(); k++) {
    if (k)
      c.check(r[k] > r[k - 1], "grid is strictly increasing");
    c.check(r[k] >= b - tol && r[k] <= e + tol, "grid point inside the range");
  }
}
// kind: bit0 backward, bit1 logarithmic with offset off
static void spread(hn::Case &c, TFloat64List const &r, double b, double e, double d, bool back, bool log, double off, double eps) {
  double tol = 1e-9 * std::max(1.0, std::fabs(e) + std::fabs(off));
  ordered(c, r, b, e, tol);
  L g = expl((L)d);
  size_t n = r.size();
  for (size_t k = 0; k + 1 < n; k++) {
    L want = log ? ((L)r[k] + off) * g - off : (L)r[k] + d;
    // the two clipped points may be up to eps nearer
    bool clip = (k == 0 || k + 2 == n) && eps > 0;
    L slack = tol + (clip ? 1.01L * eps * (log ? g : 1) : 0);
    c.check(fabsl(want - r[k + 1]) <= slack, log ? "constant ratio between grid points" : "constant step between grid points");
  }
  c.close(back ? r.back() : r.front(), back ? e : b, 1e-12, 1e-12, back ? "grid ends at the upper border" : "grid starts at the lower border");
  if (!back)
    c.check((log ? ((L)r.back() + off) * g - off : (L)r.back() + d) > (L)e - tol, "the next point would lie above the upper border");
  else
    c.check((log ? ((L)r.front() + off) / g - off : (L)r.front() - d) < (L)b + tol, "the previous point would lie below the lower border");
}
static double step(hn::Case &c, double len, bool &exact) {
  exact = c.p(0.4);
  if (exact)
    return len / c.i(1, 40);
  return len > 0 ? len * c.u(0.004, 1.6) : c.u(1e-4, 1);
}
CASES(linear, 12000) {
  double b = c.p(0.3) ? c.i(-5, 20) : c.u(-3, 10000), len = c.p(0.1) ? 0 : c.p(0.3) ? c.i(1, 30) : c.u(1e-3, 500), e = b + len;
  bool exact;
  double d = step(c, len > 0 ? len : 1, exact);
  bool back = c.p(0.5);
  c.in("begin", b), c.in("end", e), c.in("step", d), c.in("backward", back);
  TFloat64Range r(b, e);
  c.need(std::fabs(fmod(len / d + 1e-6, 1.0)) > 2e-6 || len == 0);
  spread(c, r.SpreadOver(d, back), b, e, d, back, false, 0, 0);
}
CASES(linear_eps, 12000) {
  double b = c.p(0.3) ? c.i(0, 5) : c.u(0, 8), len = c.p(0.1) ? 0 : c.u(1e-3, 5), e = b + len;
  bool exact;
  double d = step(c, len > 0 ? len : 1, exact);
  bool back = c.p(0.5);
  c.in("begin", b), c.in("end", e), c.in("step", d), c.in("backward", back);
  auto g = TFloat64Range(b, e).SpreadOverEpsilon(d, back);
  spread(c, g, b, e, d, back, false, 0, 1e-8);
  if (exact && len > 0)
    c.close(back ? g.front() : g.back(), back ? b : e, 1e-12, 1e-8, "a step dividing the range reaches the other border");
}
CASES(logarithmic, 12000) {
  double off = c.p(0.5) ? 1 : 0;
  double b = off ? c.u(0, 8) : c.u(10, 10000), len = c.p(0.1) ? 0 : c.u(1e-3, 0.8) * (b + off), e = b + len;
  double ll = std::log((e + off) / (b + off));
  bool exact;
  double d = step(c, ll > 0 ? ll : 1, exact);
  bool back = c.p(0.5);
  c.in("begin", b), c.in("end", e), c.in("step", d), c.in("backward", back), c.in("offset", off);
  TFloat64Range r(b, e);
  double q = ll / d;
  c.need(len == 0 || std::fabs(q - std::round(q)) > 1e-6);
  spread(c, off == 1 && c.p(0.5) ? r.SpreadOverLogZplusOne(d, back) : r.SpreadOverLog(d, off, back), b, e, d, back, true, off, 0);
}
CASES(logarithmic_eps, 12000) {
  double off = c.p(0.5) ? 1 : 0;
  double b = off ? c.u(0, 8) : c.u(10, 10000), len = c.p(0.1) ? 0 : c.u(1e-3, 0.8) * (b + off), e = b + len;
  double ll = std::log((e + off) / (b + off));
  bool exact;
  double d = std::max(step(c, ll > 0 ? ll : 1, exact), 1e-6);
  bool back = c.p(0.5);
  c.in("begin", b), c.in("end", e), c.in("step", d), c.in("backward", back), c.in("offset", off);
  TFloat64Range r(b, e);
  double q = ll / d;
  c.need(off == 1 || len == 0 || std::fabs(q - std::round(q)) > 1e-6);
  auto g = off == 1 && c.p(0.5) ? r.SpreadOverLogZplusOneEpsilon(d, back) : r.SpreadOverLogEpsilon(d, off, back);
  spread(c, g, b, e, d, back, true, off, 1e-8);
  if (exact && len > 0 && off == 1)
    c.close(back ? g.front() : g.back(), back ? b : e, 1e-12, 1e-7, "a step dividing the range reaches the other border");
}
static void centred(hn::Case &c, TFloat64List const &g, double b, double e, double z, double d, bool log) {
  ordered(c, g, b, e, 1e-9);
  auto it = std::min_element(g.begin(), g.end(), [&](double x, double y) { return std::fabs(x - z) < std::fabs(y - z); });
  c.check(std::fabs(*it - z) < 1e-10, "the centre is a grid point");
  TFloat64List l(g.begin(), it + 1), r(it, g.end());
  spread(c, l, b, z, d, true, log, 1, 1e-8);
  spread(c, r, z, e, d, false, log, 1, 1e-8);
}
CASES(window, 12000) {
  double b = c.u(0, 6), e = b + c.u(0.001, 1), z = c.p(0.1) ? b : c.p(0.1) ? e : c.u(b, e);
  bool log = c.p(0.5);
  double d = (e - b) / (log ? 1 + b : 1) * (c.p(0.3) ? 1.0 / c.i(1, 20) : c.u(0.01, 1.2));
  c.in("begin", b), c.in("end", e), c.in("centre", z), c.in("step", d), c.in("log", log);
  TFloat64Range r(b, e);
  centred(c, c.p(0.5) ? r.spanCenteredWindow(z, log, d) : CZGridParam(r, d, z).getZGrid(log), b, e, z, d, log);
}
CASES(zgrid, 6000) {
  double b = c.u(0, 6), e = b + c.u(0.001, 1);
  bool log = c.p(0.5);
  double d = (e - b) / (log ? 1 + b : 1) * (c.p(0.3) ? 1.0 / c.i(1, 20) : c.u(0.01, 1.2));
  c.in("begin", b), c.in("end", e), c.in("step", d), c.in("log", log);
  CZGridParam p(TFloat64Range(b, e), d);
  auto g = c.p(0.5) ? p.getZGrid(log) : CZGridListParams({p}).getZGrid(log);
  spread(c, g, b, e, d, false, log, 1, 1e-8);
}
CASES(insert, 8000) {
  int n = c.i(2, 8), m = c.i(n, 20), pos = c.i(0, n), nd = c.i(0, n - pos);
  auto v = c.in("dest", c.vec(n, 0, 1)), s = c.in("src", c.vec(m, 2, 3));
  c.in("pos", pos), c.in("ndup", nd);
  TFloat64List w(v.begin(), v.begin() + pos);
  w.insert(w.end(), s.begin(), s.end());
  w.insert(w.end(), v.begin() + pos + nd, v.end());
  auto x = v;
  insertWithDuplicates(x, pos, s, nd);
  c.eq(x, w, "inserted list");
  TFloat64List w2(v.begin(), v.begin() + pos);
  w2.insert(w2.end(), m, 7.);
  w2.insert(w2.end(), v.begin() + pos + nd, v.end());
  auto y = v;
  insertWithDuplicates(y, pos, (std::size_t)m, 7., nd);
  c.eq(y, w2, "inserted repeated value");
}
static void inserted(hn::Case &c, TFloat64List const &z, TFloat64List const &s, TFloat64List const &z2) {
  double lo = s.front() - 1e-8, hi = s.back() + 1e-8;
  TFloat64List w;
  for (double x : z)
    if (x < lo)
      w.push_back(x);
  auto s2 = s;
  if (lo <= z.front())
    s2.front() = z.front();
  if (hi >= z.back())
    s2.back() = z.back();
  w.insert(w.end(), s2.begin(), s2.end());
  for (double x : z)
    if (x > hi)
      w.push_back(x);
  c.eq(z2, w, "grid with the inserted window");
}
CASES(subgrid, 10000) {
  int n = c.i(2, 12);
  auto z = c.in("grid", c.p(0.5) ? c.inc(n, c.i(0, 2), 1, 1) : c.inc(n, c.u(0, 2), 0.1, 1));
  double b = c.p(0.3) ? z[c.i(0, n - 2)] : c.u(z.front(), z.back() - 0.01), e = c.p(0.3) ? z[c.i(1, n - 1)] : c.u(b, z.back());
  c.need(e > b + 1e-3);
  int m = c.i(n + 1, 3 * n + 2);
  TFloat64List s(m);
  for (int k = 0; k < m; k++)
    s[k] = k == m - 1 ? e : b + (e - b) * k / (m - 1);
  // borders off by less than the tolerance
  if (c.p(0.3))
    s.front() += c.u(-9e-9, 9e-9), s.back() += c.u(-9e-9, 9e-9);
  c.in("sub-grid", s);
  int nin = 0, p = -1;
  for (int k = 0; k < n; k++)
    if (z[k] >= s.front() - 1e-8 && z[k] <= s.back() + 1e-8) {
      if (!nin)
        p = k;
      nin++;
    }
  c.need(nin > 0);
  auto s2 = s, z2 = z;
  auto [ip, nd] = CZGridListParams::insertSubgrid(s2, z2);
  c.eq((int)ip, p, "insertion index");
  c.eq((int)nd, nin, "number of replaced points");
  inserted(c, z, s, z2);
  for (size_t k = 1; k < z2.size(); k++)
    c.check(z2[k] > z2[k - 1], "grid with the inserted window is strictly increasing");
}
CASES(listgrid, 6000) {
  bool log = c.p(0.5);
  double b = c.u(0, 3), e = b + c.u(0.1, 2), d = c.u(0.005, 0.02);
  TZGridListParams ps{CZGridParam(TFloat64Range(b, e), d)};
  c.in("begin", b), c.in("end", e), c.in("step", d), c.in("log", log);
  auto z = ps[0].getZGrid(log);
  int k = c.i(0, 3);
  for (int j = 0; j < k; j++) {
    double ctr = z[c.i(0, z.size() - 1)], h = c.u(3, 8) * d * (log ? 1 + e : 1);
    ps.push_back(CZGridParam(TFloat64Range(std::max(z.front(), ctr - h), std::min(z.back(), ctr + h)), d / c.i(3, 8), ctr));
    c.in("centre", ctr), c.in("half-width", h), c.in("sub-step", ps.back().zstep);
  }
  auto w = z;
  for (int j = 1; j <= k; j++) {
    auto s = ps[j].getZGrid(log);
    c.need(s.size() >= 2);
    auto w0 = w;
    int nin = std::count_if(w0.begin(), w0.end(), [&](double x) { return x >= s.front() - 1e-8 && x <= s.back() + 1e-8; });
    c.need(nin > 0 && nin <= (int)s.size());
    TFloat64List o;
    for (double x : w0)
      if (x < s.front() - 1e-8)
        o.push_back(x);
    auto s2 = s;
    if (s.front() - 1e-8 <= w0.front())
      s2.front() = w0.front();
    if (s.back() + 1e-8 >= w0.back())
      s2.back() = w0.back();
    o.insert(o.end(), s2.begin(), s2.end());
    for (double x : w0)
      if (x > s.back() + 1e-8)
        o.push_back(x);
    w = o;
  }
  c.eq(CZGridListParams(ps).getZGrid(log), w, "grid of a list of windows");
  c.check(CZGridListParams({}).getZGrid(log).empty(), "no window gives an empty grid");
}
HARNESS_MAIN
