// Replay driver for C20: boundary and random arguments against exact references.
#include <cmath>
#include <limits>
#include "common.hpp"
#include <cest/cmath.hpp>
using namespace vp;
static void note(const char *f, double x, int n = 0) { char t[120]; snprintf(t, sizeof t, "%s x=%.17g n=%d", f, x, n); g_hist = t; g_cases++; }
static void one(double x) {
  note("abs", x); REQ(cest::abs(x) == std::fabs(x)); REQ(cest::fabs(x) == std::fabs(x));
  if (std::floor(x) >= -2147483648.0 && std::floor(x) <= 2147483647.0) { note("floor", x); REQ(cest::floor(x) == std::floor(x)); }
  if (std::ceil(x) >= -2147483648.0 && std::ceil(x) <= 2147483647.0) { note("ceil", x); REQ(cest::ceil(x) == std::ceil(x)); }
  if (x >= 0) { note("sqrt", x); double r = cest::sqrt(x), w = std::sqrt(x); REQ(x == 0 ? r == 0 : std::fabs(r - w) <= 0.00101 * w); }
}
static void pw(double b, int n) {
  if (b == 0 && n < 0) return;
  note("pow", b, n); double w = std::pow(b, n), r = cest::pow(b, n);
  if (w == w && std::fabs(w) < 1e300 && std::fabs(w) > 1e-290) REQ(std::fabs(r - w) <= 1e-6 * std::fabs(w));
  else if (std::isinf(w)) REQ(std::fabs(r) > 1e290);
}
int main() {
  const double inf = std::numeric_limits<double>::infinity();
  std::vector<double> X = {0, -0.0, 5e-324, 1e-310, 1e-300, 1e-16, 1e-7, 0.001, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.999, 1, 1.0001, 1.5, 2, 2.5, 3, 3.5, 4, 9, 10, 16, 100, 12345.678, 65536, 1e6, 1e9, 2147483647, 2147483646.5, 2147483648.0, 2147483647.9, 2147483648.9, 4294967295.5, 4294967296, 9007199254740992, 1e16, 1e100, 1e200, 1e300, 1.7e308, 8388607.5, 1073741823.5, 999999.999999};
  for (int i = 0; i < 1100; i++) { X.push_back(i); X.push_back(i + 0.5); X.push_back(i * 0.001); }
  for (int e = -1070; e < 1023; e += 3) X.push_back(std::ldexp(1.37, e));
  for (double x : X) for (double s : {x, -x}) for (double y : {s, std::nextafter(s, inf), std::nextafter(s, -inf)}) one(y);
  note("sqrt", inf); REQ(cest::sqrt(inf) == inf); REQ(cest::abs(-inf) == inf);
  Rng r(seed()); long N = thorough() ? 4000000 : 200000;
  for (long i = 0; i < N; i++) { uint64_t u = r.next(); double d; memcpy(&d, &u, 8); if (d == d && !std::isinf(d)) one(d); one((double)(int64_t)r.next() / 4294967296.0); one((double)(int32_t)r.next() / 1024.0); }
  for (double b : {0., 1., -1., 2., -2., 0.5, -0.5, 3., 10., 0.1, 1.5, 1e-5, 1e5, -7.25, 1.0000001, 0.9999999}) {
    for (int n = -330; n <= 330; n++) pw(b, n);
    for (int k = 8; k < 31; k++) for (int d : {-1, 0, 1}) { pw(b, (1 << k) + d); pw(b, -((1 << k) + d)); }
    for (int n : {2147483647, 2147483646, -2147483647, (-2147483647 - 1), 1000000, 99999, -1000001}) pw(b, n); }
  printf("PASS %ld cases\n", g_cases);
}
