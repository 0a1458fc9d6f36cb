#include "harness.h"
#define private public
#define protected public
#include "RedshiftLibrary/line/airvacuum.h"
#undef private
#undef protected
using namespace NSEpic;
struct Conv {
  const char *name;
  double a, b1, b2, c1, c2, lo, hi;
};
static const std::vector<Conv> convs{
    {"edlen1953", 6.4328E-5, 2.94981E-2, 2.5540E-4, 146.0, 41.0, 2000, 1e300},
    {"edlen1966", 8.34213E-5, 2.406030E-2, 1.5997E-4, 130.0, 38.9, 2000, 1e300},
    {"PeckReeder1972", 0, 5.791817E-2, 1.67909E-3, 238.0185, 57.362, 3000, 19000},
    {"ciddor1996", 0, 5.792105E-2, 1.67917E-3, 238.0185, 57.362, 3000, 19000},
    {"morton2000", 8.34254e-5, 2.406147e-2, 1.5998e-4, 130.0, 38.9, 3000, 19000}};
static long double nidx(Conv const &c, long double w) {
  long double s = 1e8L / w / w;
  return 1 + c.a + c.b1 / (c.c1 - s) + c.b2 / (c.c2 - s);
}
CASES(conversions, 6000) {
  auto const &cv = convs[c.i(0, 4)];
  c.in("formula", std::string(cv.name));
  double top = cv.hi > 1e9 ? c.pick<double>({6000., 25000., 3e5}) : cv.hi;
  int n = c.p(0.05) ? 0 : c.p(0.1) ? c.i(100, 400) : c.i(1, 25);
  std::vector<double> w(n);
  for (auto &x : w)
    x = c.p(0.1) ? cv.lo : c.p(0.1) ? std::min(top, cv.hi) : c.p(0.2) ? c.u(cv.lo, cv.lo + 300) : c.u(cv.lo, top);
  if (n && c.p(0.25)) {
    auto &x = w[c.i(0, n - 1)];
    x = c.p(0.6) ? cv.lo - c.pick<double>({1e-9, 0.5, 300.}) : cv.hi + c.pick<double>({1e-9 * 19000, 1., 500.});
  }
  c.in("wavelengths", w);
  bool bad = !n;
  for (double x : w)
    bad |= x < cv.lo || x > cv.hi;
  auto conv = CAirVacuumConverter::Get(cv.name);
  TFloat64List air, vac;
  auto ec1 = hn::code([&] { air = conv->VacToAir(w); }), ec2 = hn::code([&] { vac = conv->AirToVac(w); });
  c.eq(ec1, bad ? (int)ErrorCode::INTERNAL_ERROR : 0, "VacToAir range check");
  c.eq(ec2, bad ? (int)ErrorCode::INTERNAL_ERROR : 0, "AirToVac range check");
  if (bad)
    return;
  auto idx = conv->AirRefractiveIndex(w);
  if (air.size() != w.size() || vac.size() != w.size() || idx.size() != w.size())
    return c.check(false, "one value per wavelength");
  for (int k = 0; k < n; k++) {
    double r = nidx(cv, w[k]);
    c.close(idx[k], r, 1e-13, 0, "refractive index");
    c.close(air[k], w[k] / nidx(cv, w[k]), 1e-13, 0, "vacuum to air");
    if (std::string(cv.name) == "morton2000") {
      long double s = 1e8L / w[k] / w[k];
      c.close(vac[k], w[k] * (1 + 0.00008336624212083L + 0.02408926869968L / (130.1065924522L - s) + 0.0001599740894897L / (38.92568793293L - s)), 1e-12, 0, "Piskunov's formula");
      c.close(vac[k] / nidx(cv, vac[k]), w[k], 1e-8, 0, "air to vacuum inverts vacuum to air");
    } else
      c.check(std::abs(vac[k] / nidx(cv, vac[k]) - w[k]) <= 2e-9 + 4e-16 * w[k], "air to vacuum inverts vacuum to air");
  }
}
CASES(names, 40) {
  auto s = c.in("name", c.pick<std::string>({"edlen1953", "edlen1966", "PeckReeder1972", "ciddor1996", "morton2000", "", "Morton2000", "edlen", "ciddor1996 "}));
  bool known = false;
  for (auto const &x : convs)
    known |= s == x.name;
  c.eq(hn::code([&] { CAirVacuumConverter::Get(s); }), known ? 0 : (int)ErrorCode::UNKNOWN_AIR_VACUUM_CONVERSION, "conversion name");
}
HARNESS_MAIN
