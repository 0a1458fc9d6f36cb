#include "harness.h"
#include "RedshiftLibrary/photometry/photometricband.h"
#include "RedshiftLibrary/photometry/photometricdata.h"
#include <algorithm>
using namespace NSEpic;
typedef long double L;
CASES(bands, 20000) {
  int n = c.i(1, 40), nt = c.p(0.95) ? n : c.i(1, 41);
  auto l = c.inc(n, c.u(100, 20000), 0.1, 200);
  if (c.p(0.15))
    std::reverse(l.begin(), l.end());
  auto T = c.vec(nt, 0, 1);
  c.in("lambda", l);
  c.in("transmission", T);
  std::shared_ptr<CPhotometricBand> b;
  c.eq(hn::code([&] { b = std::make_shared<CPhotometricBand>(T, l); }), nt == n ? 0 : (int)ErrorCode::INTERNAL_ERROR, "sizes that differ are refused");
  if (nt != n)
    return;
  c.close(b->GetMinLambda(), *std::min_element(l.begin(), l.end()), 0, 0, "smallest wavelength");
  c.check(b->GetWavelength() == l && b->GetTransmission() == T, "table kept");
  if (n < 2)
    return;
  int nf = c.p(0.95) ? n : c.i(0, 41);
  auto f = c.vec(nf, -1, 3);
  int kind = c.i(0, 2);
  if (kind == 1) // flat in frequency: the answer is the value
    for (int i = 0; i < nf && i < n; i++)
      f[i] = 299792458e10 / (l[i] * l[i]) * 2.5;
  c.in("flux", f);
  double got = 0;
  c.eq(hn::code([&] { got = b->IntegrateFlux(f); }), nf == n ? 0 : (int)ErrorCode::INTERNAL_ERROR, "flux of another size is refused");
  if (nf != n)
    return;
  if (kind == 1)
    c.close(got, 2.5, 1e-10, 0, "flux density of a flat spectrum");
  L num = 0, den = 0, mag = 0, C = 299792458e10L;
  for (int k = 1; k < n; k++) {
    L dn = C / l[k - 1] - C / l[k];
    L a = (L)f[k] * l[k] * l[k] / C * T[k] * l[k], d = (L)f[k - 1] * l[k - 1] * l[k - 1] / C * T[k - 1] * l[k - 1];
    num += (a + d) / 2 * dn;
    mag += (fabsl(a) + fabsl(d)) / 2 * fabsl(dn);
    den += ((L)T[k] * l[k] + (L)T[k - 1] * l[k - 1]) / 2 * dn;
  }
  c.close(got, (double)(num / den), 1e-9, (double)(mag / fabsl(den)) * 1e-10, "flux density in the band");
}
CASES(catalog, 4000) {
  CPhotBandCatalog cat;
  int n = c.i(0, 12);
  std::map<std::string, double> m;
  TFloat64List used;
  for (int i = 0; i < n; i++) {
    std::string s(1, 'a' + c.i(0, 25));
    double x = c.i(1, 1000) * 10. + i;
    if (m.count(s))
      continue;
    m[s] = x;
    cat.Add(s, CPhotometricBand({1., 1.}, {x + 5, x}));
  }
  c.in("bands", n);
  TStringList names;
  for (auto const &p : m)
    names.push_back(p.first);
  c.check(cat.GetNameList() == names, "names of the bands");
  std::sort(names.begin(), names.end(), [&](std::string const &a, std::string const &b) { return m[a] < m[b]; });
  c.check(cat.GetNameListSortedByLambda() == names, "bands sorted by smallest wavelength");
}
CASES(data, 4000) {
  int n = c.i(0, 10), nf = c.p(0.9) ? n : c.i(0, 10), ne = c.p(0.9) ? n : c.i(0, 10);
  TStringList names;
  for (int i = 0; i < n; i++)
    names.push_back(std::string(1, 'a' + (i * 7) % 26));
  auto f = c.in("flux", c.vec(nf, -5, 5)), s = c.in("error", c.vec(ne, 0.01, 3));
  std::shared_ptr<CPhotometricData> d;
  bool bad = nf != n || ne != n;
  c.eq(hn::code([&] { d = std::make_shared<CPhotometricData>(names, f, s); }), bad ? (int)ErrorCode::INTERNAL_ERROR : 0, "sizes that differ are refused");
  if (bad)
    return;
  for (int i = 0; i < n; i++) {
    c.close(d->GetFlux(names[i]), f[i], 0, 0, "flux of a band");
    c.close(d->GetFluxErr(names[i]), s[i], 0, 0, "error of a band");
    c.close(d->GetOneOverErr2(names[i]), 1 / (s[i] * s[i]), 1e-12, 0, "weight of a band");
    c.close(d->GetFluxOverErr2(names[i]), f[i] * f[i] / (s[i] * s[i]), 1e-12, 1e-12, "squared signal to noise of a band");
  }
  c.eq((int)d->GetNameList().size(), n, "names");
}
HARNESS_MAIN
