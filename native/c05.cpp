#include "harness.h"
#include "RedshiftLibrary/common/indexing.h"
#include "RedshiftLibrary/common/range.h"
#include <algorithm>
using namespace NSEpic;
static int EC(ErrorCode e) { return (int)e; }
// ordered samples; probes sit on, between and outside the samples
static TFloat64List list(hn::Case &c, int nmin) {
  int n = c.i(nmin, c.p(0.5) ? 4 : 30);
  return c.p(0.6) ? c.inc(n, c.i(-3, 3), 1, 1) : c.inc(n, c.u(-3, 3), 0.01, 3);
}
static double probe(hn::Case &c, TFloat64List const &v) {
  if (v.empty())
    return c.u(-3, 3);
  double k = c.u();
  if (k < 0.35)
    return v[c.i(0, v.size() - 1)];
  if (k < 0.45)
    return v.front() - c.u(0, 2);
  if (k < 0.55)
    return v.back() + c.u(0, 2);
  return c.u(v.front(), v.back());
}
CASES(closed, 20000) {
  auto v = c.in("v", list(c, 0));
  double a = probe(c, v), b = probe(c, v);
  if (a > b && c.p(0.95))
    std::swap(a, b);
  c.in("begin", a), c.in("end", b);
  Int32 i = -7, j = -7;
  int rc = hn::code([&] { TFloat64Range(a, b).getClosedIntervalIndices(v, i, j); });
  int lo = -1, hi = -1;
  for (int k = 0; k < (int)v.size(); k++)
    if (v[k] >= a && v[k] <= b) {
      if (lo < 0)
        lo = k;
      hi = k;
    }
  int want = v.empty() ? EC(ErrorCode::EMPTY_LIST)
             : (b < v.front() || a > v.back()) ? EC(ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE)
             : lo < 0 ? EC(ErrorCode::CRANGE_NO_INTERSECTION) : 0;
  c.eq(rc, want, "closed interval: error code");
  if (!rc) {
    c.eq((int)i, lo, "closed interval: first sample inside the range");
    c.eq((int)j, hi, "closed interval: last sample inside the range");
  }
}
static void encl(hn::Case &c, TFloat64List const &v, double a, double b, int i, int j) {
  int lo = 0, hi = v.size() - 1;
  for (int k = 0; k < (int)v.size(); k++)
    if (v[k] <= a)
      lo = k;
  for (int k = v.size() - 1; k >= 0; k--)
    if (v[k] >= b)
      hi = k;
  c.eq(i, lo, "enclosing interval: last sample not above the lower border");
  c.eq(j, hi, "enclosing interval: first sample not below the upper border");
}
CASES(enclosing, 20000) {
  auto v = c.in("v", list(c, 0));
  double a = probe(c, v), b = probe(c, v);
  if (a > b)
    std::swap(a, b);
  c.in("begin", a), c.in("end", b);
  Int32 i = -7, j = -7;
  int rc = hn::code([&] { TFloat64Range(a, b).getEnclosingIntervalIndices(v, i, j); });
  int want = v.empty() ? EC(ErrorCode::EMPTY_LIST) : (a < v.front() || b > v.back()) ? EC(ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE) : 0;
  c.eq(rc, want, "enclosing interval: error code");
  if (!rc)
    encl(c, v, a, b, i, j);
  double x = c.in("x", c.p(0.8) ? c.u(a, b) : c.p(0.5) ? a : b + c.u(-1, 1));
  if (c.p(0.1))
    x = c.in("x", b);
  int rc2 = hn::code([&] { TFloat64Range(a, b).getEnclosingIntervalIndices(v, x, i, j); });
  want = (x < a || x > b) ? EC(ErrorCode::CRANGE_VALUE_OUTSIDERANGE) : want;
  c.eq(rc2, want, "enclosing interval around a value: error code");
  if (!rc2)
    encl(c, v, a, b, i, j);
}
CASES(nearest, 20000) {
  auto v = c.in("v", list(c, 1));
  double x = c.in("x", probe(c, v));
  if (c.p(0.1) && v.size() > 1)
    x = c.in("x", (v[0] + v[1]) / 2);
  Int32 i = -7;
  int lo = -1, up = -1;
  for (int k = 0; k < (int)v.size(); k++)
    if (v[k] <= x)
      lo = k;
  for (int k = v.size() - 1; k >= 0; k--)
    if (v[k] >= x)
      up = k;
  bool ok = CIndexing<Float64>::getClosestLowerIndex(v, x, i);
  c.eq(ok, lo >= 0, "closest lower index: found");
  if (ok)
    c.eq((int)i, lo, "closest lower index");
  ok = CIndexing<Float64>::getClosestUpperIndex(v, x, i);
  c.eq(ok, up >= 0, "closest upper index: found");
  if (ok)
    c.eq((int)i, up, "closest upper index");
  int m = CIndexing<Float64>::getCloserIndex(v, x);
  c.check(m >= 0 && m < (int)v.size(), "closer index out of bounds");
  for (double y : v)
    c.check(std::abs(v[m] - x) <= std::abs(y - x), "closer index: another sample is closer");
  int want = 0, at = std::find(v.begin(), v.end(), x) - v.begin();
  if (at == (int)v.size())
    want = EC(ErrorCode::INTERNAL_ERROR);
  int g = -1;
  c.eq(hn::code([&] { g = CIndexing<Float64>::getIndex(v, x); }), want, "index of a value: error code");
  if (!want)
    c.eq(g, at, "index of a value");
}
CASES(algebra, 20000) {
  double a = c.grid(-5, 5, 0.5), b = a + c.grid(0, 6, 0.5), e = c.grid(-5, 5, 0.5), f = e + c.grid(0, 6, 0.5);
  c.in("a", TFloat64List{a, b});
  c.in("b", TFloat64List{e, f});
  TFloat64Range A(a, b), B(e, f), O(77, 99);
  bool meet = std::max(a, e) <= std::min(b, f);
  c.eq(TFloat64Range::HasIntersection(A, B), meet, "ranges meet");
  c.eq(A.HasIntersectionWith(B), meet, "ranges meet (member)");
  c.eq(TFloat64Range::Intersect(A, B, O), meet, "intersect result");
  c.check(O == (meet ? TFloat64Range(std::max(a, e), std::min(b, f)) : TFloat64Range(77, 99)), "intersection");
  TFloat64Range C = A;
  c.eq(C.IntersectWith(B), meet, "intersect-with result");
  c.check(C == (meet ? TFloat64Range(std::max(a, e), std::min(b, f)) : A), "intersect-with");
  O = TFloat64Range(77, 99);
  c.eq(TFloat64Range::getUnion(A, B, O), meet, "union result");
  c.check(O == (meet ? TFloat64Range(std::min(a, e), std::max(b, f)) : TFloat64Range(77, 99)), "union");
  C = A;
  c.eq(C.unionWith(B), meet, "union-with result");
  c.check(C == (meet ? TFloat64Range(std::min(a, e), std::max(b, f)) : A), "union-with");
  c.eq(A.Clamp(e), std::min(std::max(e, a), b), "clamp");
}
CASES(join, 20000) {
  int n = c.i(1, 8);
  TFloat64RangeList r;
  TFloat64List flat;
  for (int k = 0; k < n; k++) {
    double a = c.grid(-8, 8, 1);
    r.emplace_back(a, a + c.grid(0, 5, 1));
    flat.push_back(a), flat.push_back(r.back().GetEnd());
  }
  c.in("ranges", flat);
  auto o = TFloat64Range::joinIntersections(r);
  auto cov = [](TFloat64RangeList const &l, double x) {
    for (auto &y : l)
      if (y.GetBegin() <= x && x <= y.GetEnd())
        return true;
    return false;
  };
  for (double x = -10; x <= 15; x += 0.25)
    c.eq(cov(o, x), cov(r, x), "joined ranges cover the same points as the input");
  for (size_t k = 0; k + 1 < o.size(); k++)
    c.check(o[k].GetEnd() < o[k + 1].GetBegin(), "joined ranges are ordered and disjoint");
}
HARNESS_MAIN
