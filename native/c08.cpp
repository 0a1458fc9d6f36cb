#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/common/mask.h"
#undef private
#undef protected
using namespace NSEpic;
static std::vector<int> bits(hn::Case &c, int n) {
  std::vector<int> v(n);
  double pr = c.pick<double>({0., 0.5, 0.5, 0.1, 0.9, 1.});
  for (auto &x : v)
    x = c.p(pr);
  return v;
}
static CMask mk(std::vector<int> const &v) {
  CMask m(v.size());
  for (size_t k = 0; k < v.size(); k++)
    m[k] = v[k];
  return m;
}
static std::vector<int> un(CMask const &m) {
  std::vector<int> v;
  for (int k = 0; k < m.GetMasksCount(); k++)
    v.push_back(m[k]);
  return v;
}
CASES(masks, 40000) {
  int n = c.p(0.02) ? c.i(250, 700) : c.i(0, 40), n2 = c.p(0.85) ? n : std::max(0, n + c.i(-3, 3));
  auto a = c.in("a", bits(c, n)), b = c.in("b", bits(c, n2));
  CMask A = mk(a), B = mk(b);
  int na = 0, nb = 0, ni = 0;
  for (int x : a)
    na += x;
  for (int x : b)
    nb += x;
  if (n == n2)
    for (int k = 0; k < n; k++)
      ni += a[k] & b[k];
  c.eq(A.GetUnMaskedSampleCount(), na, "unmasked count");
  c.eq(A.GetMaskedSampleCount(), n - na, "masked count");
  auto met = a;
  if (n == n2)
    for (int k = 0; k < n; k++)
      met[k] = a[k] & b[k];
  CMask X = A;
  X &= B;
  c.eq(un(X), met, "operator&=");
  CMask Y = A;
  c.eq(Y.IntersectWith(B), n == n2, "IntersectWith returns");
  c.eq(un(Y), met, "IntersectWith");
  double f1 = n != n2 ? -1 : na ? nb / (double)na : 0, f2 = n != n2 ? -1 : na ? ni / (double)na : 0;
  c.close(A.CompouteOverlapFraction(B), f1, 1e-12, 0, "overlap fraction");
  c.close(A.IntersectAndComputeOverlapFraction(B), f2, 1e-12, 0, "intersected overlap fraction");
}
HARNESS_MAIN
