// Replay driver for C26: the approximated functions against the standard library, within the stated errors.
#include <cmath>
#include <limits>
#include "common.hpp"
#include <cest/cmath.hpp>
using namespace vp;
static void note(const char *f, double x, double y = 0) { char t[140]; snprintf(t, sizeof t, "%s x=%.17g y=%.17g", f, x, y); g_hist = t; g_cases++; }
static bool within(double a, double b, double e) { return std::fabs(a - b) <= e; }
static bool rel(double a, double b, double e) { return std::fabs(a - b) <= e * std::fabs(b); }
static void one(double x) {
  if (std::fabs(x) <= 6.2831853) { note("sin", x); REQ(within(cest::sin(x), std::sin(x), 2e-5)); note("cos", x); REQ(within(cest::cos(x), std::cos(x), 2e-5)); }
  if (std::fabs(x) <= 10) { note("sinh", x); REQ(rel(cest::sinh(x), std::sinh(x), 2e-5)); note("cosh", x); REQ(rel(cest::cosh(x), std::cosh(x), 6e-4)); }
  if (std::fabs(x) <= 700) { note("exp", x); REQ(rel(cest::exp(x), std::exp(x), 1e-4)); }
  if (x > 0) { note("log", x); REQ(within(cest::log(x), std::log(x), 1.2e-3)); }
  if (x < 0) { note("log", x); double r = cest::log(x); REQ(r != r); }
  note("atan", x); REQ(within(cest::atan(x), std::atan(x), 1e-4));
}
static void two(double y, double x) { double q = y / x; if ((x == 0 && y == 0)) return; note("atan2", y, x); REQ(within(cest::atan2(y, x), y == 0 && x < 0 ? 3.141592653589793 : std::atan2(y, x), 1e-4)); }
int main() {
  const double inf = std::numeric_limits<double>::infinity();
  note("log", 0); REQ(cest::log(0.0) == -inf); REQ(cest::log(-0.0) == -inf);
  std::vector<double> X = {0, -0.0, 5e-324, 1e-310, 1e-300, 1e-100, 1e-16, 1e-7, 0.000999, 0.001, 0.00100001, 0.003, 0.1, 0.25, 0.26785714285714285, 0.2679491924311227, 0.5, 0.75, 0.9, 0.99, 0.999, 1, 1.0001, 1.5, 1.5707963267948966, 2, 2.5, 3, 3.141592653589793, 4.71238898038469, 6.283185307, 9.99, 10, 10.01, 99.9, 100, 1e9, 1e100, 1e300, 1.7e308, 699.9, 0.49999999, 0.50000001, 350.5};
  for (int i = -70000; i <= 70000; i++) { X.push_back(i * 0.0001); X.push_back(i * 0.01); }
  for (int e = -1070; e < 1023; e++) { X.push_back(std::ldexp(1.0, e)); X.push_back(std::ldexp(1.37, e)); X.push_back(std::ldexp(1.9999, e)); }
  for (int e = -320; e <= 308; e++) { X.push_back(std::pow(10., e)); X.push_back(9.99 * std::pow(10., e - 1)); }
  for (double x : X) for (double s : {x, -x}) { one(s); if (std::fabs(x) > 1e-300 && x < 1e300) { one(std::nextafter(s, inf)); one(std::nextafter(s, -inf)); } }
  Rng r(seed()); long N = thorough() ? 3000000 : 100000;
  for (long i = 0; i < N; i++) { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); if (d == d && !std::isinf(d)) one(d); double v = (double)(int64_t)r.next() / 9.3e18; one(v * 6.2831853); one(v * 10); one(v * 700); two(v * 5, (double)(int64_t)r.next() / 1e18); two((double)(int64_t)r.next() / 1e18, v); }
  for (double y : {0., 1e-300, 1e300, 1e-9, 0.1, 0.5, 1., 2., 1000., 1e9}) for (double x : {0., 1e-300, 1e300, 1e-9, 0.1, 0.5, 1., 2., 1000., 1e9}) for (int s = 0; s < 4; s++) two(s & 1 ? 0 - y : y, s & 2 ? 0 - x : x);
  printf("PASS %ld cases\n", g_cases);
}
