#include <algorithm>
#include <numeric>
#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/extremum/extremum.h"
#undef private
#undef protected
using namespace NSEpic;
static const int IE = (int)ErrorCode::INTERNAL_ERROR;
static TFloat64List curve(hn::Case &c, int n) {
  TFloat64List y(n);
  int kind = c.i(0, 3);
  double x = 0;
  for (auto &v : y) {
    if (kind == 0)
      v = c.grid(0, c.i(1, 2), 1.); // many plateaus
    else if (kind == 1)
      v = c.u(-10, 10);
    else if (kind == 2)
      v = x += c.i(-1, 1); // stairs
    else
      v = c.grid(-3, 3, 0.5);
  }
  return y;
}
struct Pk {
  double x, y;
  int i;
};
// local maxima of s*y in [b,e]: runs of equal values higher than both neighbours (a missing neighbour counts as lower if border)
static std::vector<Pk> peaks(TFloat64List const &x, TFloat64List const &y, int b, int e, bool border, double s = 1) {
  std::vector<Pk> r;
  for (int i = b; i <= e;) {
    int j = i;
    while (j < e && y[j + 1] == y[i])
      j++;
    bool up = i == b ? border : s * y[i - 1] < s * y[i];
    bool dn = j == e ? border : s * y[j + 1] < s * y[i];
    if (up && dn) {
      int m = j - (j - i + 1) / 2;
      if (j == i)
        m = i;
      r.push_back({x[m], y[m], m});
    }
    i = j + 1;
  }
  return r;
}
static std::string show(std::vector<Pk> const &v) {
  std::ostringstream o;
  for (auto &p : v)
    o << "(" << p.x << "," << p.y << ") ";
  return o.str();
}
static std::string show(TPointList const &v) {
  std::ostringstream o;
  for (auto &p : v)
    o << "(" << p.X << "," << p.Y << ") ";
  return o.str();
}
CASES(all_peaks, 60000) {
  int n = c.i(3, c.p(0.5) ? 9 : 40);
  auto x = c.inc(n, c.u(0, 2), 0.01, 0.2);
  auto y = c.in("y", curve(c, n));
  bool border = c.in("border", c.p(0.5)), inv = c.in("min", c.p(0.2));
  int b = c.in("b", c.p(0.5) ? 0 : c.i(0, n - 3)), e = c.in("e", c.p(0.5) ? n - 1 : c.i(b + 2, n - 1));
  CExtremum E(5, 0, -1, inv, border, TFloat64Range(-10, 10));
  auto r = E.FindAllPeaks(x, y, b, e);
  double s = inv ? -1 : 1;
  auto ex = peaks(x, y, b, e, border, s);
  c.eq(r.first.size(), ex.size(), "number of local maxima (" + show(ex) + ")");
  c.eq(r.second.size(), ex.size(), "one value per maximum");
  for (size_t k = 0; k < ex.size(); k++) {
    c.eq(r.first[k], ex[k].x, "position of a local maximum");
    c.eq(r.second[k], s * ex[k].y, "value of a local maximum");
  }
}
CASES(best_maxima, 80000) {
  int n = c.i(3, c.p(0.5) ? 9 : 60);
  auto x = c.in("x", c.inc(n, c.u(0, 2), 0.0005, c.pick<double>({0.001, 0.01, 0.2})));
  auto y = c.in("y", curve(c, n));
  bool border = c.in("border", c.p(0.7)), inv = c.in("min", c.p(0.1)), first = c.in("first", c.p(0.5));
  double cut = c.in("cut", c.pick<double>({-1., 0., 0.5, 1., 3.}));
  double sep = c.in("sep", c.pick<double>({0., 0.001, 0.01, 0.05}));
  int maxn = c.in("max", c.i(1, 6));
  double lo = c.in("lo", c.p(0.6) ? -10. : c.u(x[0] - 0.1, x[n / 2])), hi = c.in("hi", c.p(0.6) ? 50. : c.u(lo, x[n - 1] + 0.1));
  CExtremum E(maxn, sep, cut, inv, border, TFloat64Range(lo, hi));
  double s = inv ? -1 : 1;
  int b = n, e = -1;
  for (int i = 0; i < n; i++)
    if (lo <= x[i] && x[i] <= hi) {
      b = std::min(b, i);
      e = i;
    }
  if (lo == hi) { // an empty range stands for the whole axis
    b = 0;
    e = n - 1;
  }
  TPointList r;
  int code = hn::code([&] { r = E.Find(x, y, first); });
  if (e < 0) {
    c.check(code != 0, "no sample in the range is refused");
    return;
  }
  if (e - b < 2) {
    c.eq(code, IE, "less than three samples are refused");
    return;
  }
  auto ex = peaks(x, y, b, e, border, s);
  if (ex.empty()) {
    c.eq(code, first ? (int)ErrorCode::PDF_PEAK_NOT_FOUND : 0, "no maximum: an error in the first pass only");
    c.check(r.empty(), "nothing returned without a maximum");
    return;
  }
  c.eq(code, 0, "found");
  std::stable_sort(ex.begin(), ex.end(), [&](Pk const &p, Pk const &q) { return s * p.y > s * q.y; });
  c.in("peaks", show(ex));
  c.in("got", show(r));
  double best = s * ex[0].y;
  std::vector<Pk> keep;
  for (auto &p : ex)
    if (!(cut > 0) || best - s * p.y <= cut)
      keep.push_back(p);
  c.check(!r.empty() && r.size() <= (size_t)maxn, "at least one and at most the requested number of maxima");
  c.eq(s * r[0].Y, best, "the best maximum comes first");
  for (size_t k = 0; k < r.size(); k++) {
    c.check(std::any_of(keep.begin(), keep.end(), [&](Pk const &p) { return p.x == r[k].X && p.y == r[k].Y; }), "every result is a local maximum within the cut");
    if (k)
      c.check(s * r[k - 1].Y >= s * r[k].Y, "decreasing values");
    for (size_t j = 0; j < k; j++)
      c.check(r[j].X != r[k].X, "no maximum twice");
  }
  auto wl = [&](double z) { return z - sep / 2 * (1 + z); };
  auto wh = [&](double z) { return z + sep / 2 * (1 + z); };
  if (sep == 0) {
    c.eq(r.size(), std::min<size_t>(maxn, keep.size()), "as many maxima as requested");
    for (size_t k = 0; k < r.size(); k++)
      c.eq(r[k].Y, keep[k].y, "the highest maxima are kept");
    return;
  }
  // greedy choice: a maximum is dropped only for a better kept one too close to it
  for (size_t i = 0; i < r.size(); i++)
    for (size_t j = 0; j < r.size(); j++)
      if (r[i].X < r[j].X)
        c.check(wl(r[j].X) - wh(r[i].X) >= -1e-12, "kept maxima are separated");
  if (r.size() < (size_t)maxn)
    for (auto &p : keep) {
      bool in = false, close = false;
      for (auto &q : r) {
        in |= q.X == p.x;
        double a = std::min(q.X, p.x), z = std::max(q.X, p.x);
        close |= s * q.Y >= s * p.y && wl(z) - wh(a) < 1e-12;
      }
      c.check(in || close, "a maximum is only dropped for a better one too close to it");
    }
}
CASES(refused, 200) {
  CExtremum E(5, 0, -1, false, true, TFloat64Range(-10, 10));
  int n = c.in("n", c.i(0, 2));
  auto x = c.inc(n, 0, 0.1, 1), y = c.vec(n, 0, 1);
  c.eq(hn::code([&] { E.Find(x, y, c.p(0.5)); }), IE, "less than three samples are refused");
  auto x2 = c.inc(n + 3, 0, 0.1, 1), y2 = c.vec(n + 2, 0, 1);
  c.eq(hn::code([&] { E.Find(x2, y2, true); }), IE, "lists of different sizes are refused");
}
CASES(nan_borders, 4000) {
  int n = c.i(3, 20), a = c.in("front", c.i(0, 3)), z = c.in("back", c.i(0, 3));
  auto y = c.in("y", curve(c, n));
  TFloat64List Y(a, NAN);
  Y.insert(Y.end(), y.begin(), y.end());
  Y.insert(Y.end(), z, NAN);
  auto x = c.inc(Y.size(), 0, 0.1, 1);
  bool border = c.in("border", c.p(0.5));
  CExtremum E(5, 0, -1, false, border, TFloat64Range(-10, 100));
  auto r = E.FindAllPeaks(x, Y, 0, Y.size() - 1);
  auto ex = peaks(x, Y, a, a + n - 1, border);
  c.eq(r.first.size(), ex.size(), "values that are not numbers at the ends are skipped");
  for (size_t k = 0; k < ex.size(); k++)
    c.eq(r.first[k], ex[k].x, "position of a local maximum");
}
HARNESS_MAIN
