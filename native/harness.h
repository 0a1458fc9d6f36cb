// Common part of the native harnesses: bounded search for a failing input on the
// real code.  Every case is reproducible from (seed, group, index).
#ifndef VERIF_HARNESS_H
#define VERIF_HARNESS_H
#include "RedshiftLibrary/common/datatypes.h"
#include "RedshiftLibrary/common/exception.h"
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
namespace hn {
struct Skip {};
struct Failed {
  std::string what;
};
inline char g_cur[1 << 16];
inline std::string g_out;
struct Case {
  uint64_t s;
  std::string group;
  uint64_t idx;
  std::string rec;
  bool nontrivial = false;
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double u(double a, double b) { return a + (b - a) * u(); }
  int i(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool p(double pr) { return u() < pr; }
  template <class T> T pick(std::vector<T> const &v) {
    return v[next() % v.size()];
  }
  // small values with many ties
  double grid(int lo, int hi, double step) { return i(lo, hi) * step; }
  std::vector<double> vec(int n, double a, double b) {
    std::vector<double> v(n);
    for (auto &x : v)
      x = u(a, b);
    return v;
  }
  std::vector<double> inc(int n, double start, double smin, double smax) {
    std::vector<double> v(n);
    double x = start;
    for (auto &y : v) {
      y = x;
      x += u(smin, smax);
    }
    return v;
  }
  template <class T> static void put(std::ostream &o, T const &v) { o << v; }
  template <class T> static void put(std::ostream &o, std::vector<T> const &v) {
    o << "[";
    for (size_t k = 0; k < v.size(); k++) {
      if (k)
        o << ",";
      put(o, T(v[k]));
    }
    o << "]";
  }
  static void put(std::ostream &o, bool v) { o << (v ? "true" : "false"); }
  template <class T> T in(const char *n, T const &v) {
    std::ostringstream o;
    o.precision(17);
    o << n << "=";
    put(o, v);
    rec += (rec.empty() ? "" : "; ") + o.str();
    if (rec.size() > 20000)
      rec.resize(20000);
    snprintf(g_cur, sizeof g_cur, "%s[%llu]: %s", group.c_str(),
             (unsigned long long)idx, rec.c_str());
    return v;
  }
  void check(bool c, std::string const &what) {
    if (!c)
      throw Failed{what};
  }
  void close(double a, double b, double rel, double abs,
             std::string const &what) {
    bool ok = (std::isnan(a) && std::isnan(b)) || a == b ||
              std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
    if (!ok) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": got " << a << ", expected " << b;
      throw Failed{o.str()};
    }
  }
  template <class T> void eq(T const &a, T const &b, std::string const &what) {
    if (!(a == b)) {
      std::ostringstream o;
      o.precision(17);
      o << what << ": got ";
      put(o, a);
      o << ", expected ";
      put(o, b);
      throw Failed{o.str()};
    }
  }
  void need(bool c) {
    if (!c)
      throw Skip{};
  }
};
// error code thrown by f, 0 when it returns
template <class F> int code(F &&f) {
  try {
    f();
  } catch (NSEpic::AmzException const &e) {
    return (int)e.getErrorCode();
  }
  return 0;
}
struct Group {
  const char *name;
  std::function<void(Case &)> f;
  uint64_t n;
};
inline std::vector<Group> &groups() {
  static std::vector<Group> g;
  return g;
}
struct Reg {
  Reg(const char *n, uint64_t cnt, std::function<void(Case &)> f) {
    groups().push_back({n, f, cnt});
  }
};
inline std::string esc(std::string const &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\')
      o += '\\';
    if (c == '\n')
      o += "\\n";
    else if ((unsigned char)c < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}
inline void onsig(int sg) {
  char b[1 << 16];
  int n = snprintf(b, sizeof b, "\nFAILCASE signal %d at %s\n", sg, g_cur);
  ssize_t r = write(2, b, n);
  (void)r;
  _exit(3);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  Case c;
  c.s = a * 0x9E3779B97F4A7C15ull ^ b;
  c.next();
  return c.next();
}
inline uint64_t hs(std::string const &s) {
  uint64_t h = 1469598103934665603ull;
  for (char c : s)
    h = (h ^ (unsigned char)c) * 1099511628211ull;
  return h;
}
// usage: exe SEED SHARD NSHARDS SCALE BUDGET_S [GROUP INDEX]
inline int main_(int argc, char **argv) {
  uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
  uint64_t shard = argc > 2 ? strtoull(argv[2], 0, 10) : 0;
  uint64_t nsh = argc > 3 ? strtoull(argv[3], 0, 10) : 1;
  double scale = argc > 4 ? atof(argv[4]) : 1;
  double budget = argc > 5 ? atof(argv[5]) : 60;
  const char *og = argc > 6 ? argv[6] : nullptr;
  uint64_t oi = argc > 7 ? strtoull(argv[7], 0, 10) : 0;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS})
    signal(s, onsig);
  auto t0 = std::chrono::steady_clock::now();
  auto el = [&] {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0)
        .count();
  };
  uint64_t ev = 0, nt = 0, skipped = 0;
  std::set<uint64_t> dig;
  std::map<std::string, uint64_t> per;
  std::vector<std::string> samples;
  bool trunc = false;
  int nf = 0;
  int gi = 0;
  double gleft = groups().size();
  for (auto &g : groups()) {
    gi++;
    double share = (budget - el()) / std::max(1.0, gleft);
    gleft -= 1;
    double gend = el() + share;
    if (og && strcmp(og, g.name))
      continue;
    uint64_t n = (uint64_t)std::max(1.0, g.n * scale);
    uint64_t gs = 0;
    for (uint64_t k = og ? oi : shard; k < (og ? oi + 1 : n); k += nsh) {
      if (!og && el() > gend) {
        trunc = true;
        break;
      }
      Case c;
      c.group = g.name;
      c.idx = k;
      c.s = mix(mix(seed, hs(g.name)), k);
      snprintf(g_cur, sizeof g_cur, "%s[%llu]", g.name, (unsigned long long)k);
      std::string fail;
      alarm(0);
      try {
        g.f(c);
        ev++;
      } catch (Skip const &) {
        skipped++;
        continue;
      } catch (Failed const &f) {
        fail = f.what;
      } catch (NSEpic::AmzException const &e) {
        fail = std::string("unexpected exception: ") + e.what();
      } catch (std::exception const &e) {
        fail = std::string("unexpected exception: ") + e.what();
      }
      if (og)
        printf("CASE %s[%llu] %s\n", g.name, (unsigned long long)k, c.rec.c_str());
      if (!fail.empty()) {
        printf("FAILCASE {\"group\":\"%s\",\"index\":%llu,\"seed\":%llu,"
               "\"what\":\"%s\",\"inputs\":\"%s\"}\n",
               g.name, (unsigned long long)k, (unsigned long long)seed,
               esc(fail).c_str(), esc(c.rec).c_str());
        fflush(stdout);
        if (++nf >= 3)
          return 1;
        break;
      }
      uint64_t d = hs(std::string(g.name) + c.rec);
      if (!c.rec.empty() && dig.insert(d).second)
        nt++;
      per[g.name]++;
      if (gs < 2 && shard == 0) {
        samples.push_back(std::string(g.name) + ": " + c.rec.substr(0, 400));
        gs++;
      }
    }
  }
  printf("STATS {\"evaluations\":%llu,\"distinct\":%llu,\"skipped\":%llu,"
         "\"truncated\":%s,\"samples\":[",
         (unsigned long long)ev, (unsigned long long)nt,
         (unsigned long long)skipped, trunc ? "true" : "false");
  for (size_t k = 0; k < samples.size(); k++)
    printf("%s\"%s\"", k ? "," : "", esc(samples[k]).c_str());
  printf("],\"groups\":{");
  bool first = true;
  for (auto &x : per) {
    printf("%s\"%s\":%llu", first ? "" : ",", x.first.c_str(),
           (unsigned long long)x.second);
    first = false;
  }
  printf("}}\n");
  return nf ? 1 : 0;
}
} // namespace hn
#define CASES(name, count)                                                     \
  static void name(hn::Case &c);                                               \
  static hn::Reg reg_##name(#name, count, name);                               \
  static void name(hn::Case &c)
#define HARNESS_MAIN                                                           \
  int main(int argc, char **argv) { return hn::main_(argc, argv); }
#endif
