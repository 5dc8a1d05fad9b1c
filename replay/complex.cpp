// Replay driver for C19: exact dyadic operands, all operators and aliasings, integer powers.
#include <cmath>
#include "common.hpp"
#include <limits>
#include <cest/cmath.hpp>
#include <cest/istream.hpp>
#include <cest/complex.hpp>
using namespace vp;
using C = cest::complex<double>;
struct M { double a, b; };
static M mul(M x, M y) { return {x.a * y.a - x.b * y.b, x.a * y.b + x.b * y.a}; }
static M dv(M x, M y) { double n = y.a * y.a + y.b * y.b; return {(x.a * y.a + x.b * y.b) / n, (x.b * y.a - x.a * y.b) / n}; }
static bool cl(double x, double y) { return x == y || std::fabs(x - y) <= 1e-12 * (1 + std::fabs(y)); }
static bool eq(const C &z, M m) { return cl(z.real(), m.a) && cl(z.imag(), m.b); }
static void pair(M x, M y) {
  g_hist.clear(); char t[160]; snprintf(t, sizeof t, "x=(%g,%g) y=(%g,%g)", x.a, x.b, y.a, y.b); g_hist = t; g_cases++;
  const C X(x.a, x.b), Y(y.a, y.b); double s = y.a; M sm{s, 0};
  REQ(X.real() == x.a && X.imag() == x.b && cest::real(X) == x.a && cest::imag(X) == x.b);
  { C z(X); z.real(y.a); REQ(z.real() == y.a && z.imag() == x.b); z.imag(y.b); REQ(z.real() == y.a && z.imag() == y.b); C w(x.a); REQ(w.real() == x.a && w.imag() == 0); C u; REQ(u.real() == 0 && u.imag() == 0); }
  REQ(eq(X + Y, {x.a + y.a, x.b + y.b})); REQ(eq(X - Y, {x.a - y.a, x.b - y.b})); REQ(eq(X * Y, mul(x, y)));
  REQ(eq(X + s, {x.a + s, x.b})); REQ(eq(X - s, {x.a - s, x.b})); REQ(eq(X * s, {x.a * s, x.b * s}));
  REQ(eq(s + X, {x.a + s, x.b})); REQ(eq(s - X, {s - x.a, -x.b})); REQ(eq(s * X, {x.a * s, x.b * s}));
  if (y.a || y.b) REQ(eq(X / Y, dv(x, y)));
  if (s) REQ(eq(X / s, {x.a / s, x.b / s}));
  if (x.a || x.b) REQ(eq(s / X, dv(sm, x)));
  { C z(X); C *p = &(z += Y); REQ(p == &z && eq(z, {x.a + y.a, x.b + y.b})); }
  { C z(X); C *p = &(z -= Y); REQ(p == &z && eq(z, {x.a - y.a, x.b - y.b})); }
  { C z(X); C *p = &(z *= Y); REQ(p == &z && eq(z, mul(x, y))); }
  if (y.a || y.b) { C z(X); C *p = &(z /= Y); REQ(p == &z && eq(z, dv(x, y))); }
  { C z(X); z += s; REQ(eq(z, {x.a + s, x.b})); z = X; z -= s; REQ(eq(z, {x.a - s, x.b})); z = X; z *= s; REQ(eq(z, {x.a * s, x.b * s})); if (s) { z = X; z /= s; REQ(eq(z, {x.a / s, x.b / s})); } z = s; REQ(z.real() == s && z.imag() == 0); z = Y; REQ(z.real() == y.a && z.imag() == y.b); }
  { const cest::complex<float> G((float)y.a, (float)y.b); M g{G.real(), G.imag()}; C z(G); REQ(eq(z, g)); z = X; z += G; REQ(eq(z, {x.a + g.a, x.b + g.b})); z = X; z -= G; REQ(eq(z, {x.a - g.a, x.b - g.b})); z = X; z *= G; REQ(eq(z, mul(x, g)));
    if (g.a * g.a + g.b * g.b > 1e-9 && std::fabs(g.a) + std::fabs(g.b) < 1e3) { z = X; z /= G; M w = dv(x, g); REQ(std::fabs(z.real() - w.a) <= 1e-5 * (1 + std::fabs(w.a) + std::fabs(w.b)) && std::fabs(z.imag() - w.b) <= 1e-5 * (1 + std::fabs(w.a) + std::fabs(w.b))); } z = X; z = G; REQ(eq(z, g)); }
  // aliased operands
  { C z(X); z += z; REQ(eq(z, {2 * x.a, 2 * x.b})); z = X; z -= z; REQ(eq(z, {0, 0})); z = X; z *= z; REQ(eq(z, mul(x, x))); if (x.a || x.b) { z = X; z /= z; REQ(eq(z, {1, 0})); z = X; z = z; REQ(z == X); } REQ(eq(X * X, mul(x, x))); }
  REQ(eq(+X, x)); REQ(eq(-X, {-x.a, -x.b})); REQ(eq(cest::conj(X), {x.a, -x.b})); REQ(cl(cest::norm(X), x.a * x.a + x.b * x.b));
  bool e = x.a == y.a && x.b == y.b; REQ((X == Y) == e); REQ((X != Y) == !e);
  bool es = x.a == s && x.b == 0; REQ((X == s) == es); REQ((s == X) == es); REQ((X != s) == !es); REQ((s != X) == !es);
}
int main() {
  const double D[] = {0, 1, -1, 2, 0.5, -3, 4, -0.25, 7, 1024, -1.0 / 1048576, 3e7};
  for (double a : D) for (double b : D) for (double c : D) for (double d : D) pair({a, b}, {c, d});
  // integer powers of Gaussian integers (exact) and of numbers of magnitude one
  for (M b : {M{1, 1}, M{0, 1}, M{-1, 1}, M{2, 1}, M{0, -1}, M{-1, 0}, M{3, 0}, M{0.6, 0.8}, M{0.5, 0}, M{1, 0}}) {
    M p{1, 0};
    for (int n = 0; n < 2000; n++) {
      if (std::fabs(p.a) + std::fabs(p.b) > 1e15) break;
      g_hist.clear(); char t[90]; snprintf(t, sizeof t, "base=(%g,%g)", b.a, b.b); g_hist = t; say(" n=%ld", n); g_cases++;
      const C B(b.a, b.b); C r = cest::pow(B, n); REQ(std::fabs(r.real() - p.a) <= 1e-9 * (1 + std::fabs(p.a)) && std::fabs(r.imag() - p.b) <= 1e-9 * (1 + std::fabs(p.b)));
      C u = cest::__complex_pow_unsigned(B, (unsigned)n); REQ(u == r);
      if (std::fabs(p.a) + std::fabs(p.b) > 1e-15) { C q = cest::pow(B, -n); M w = dv({1, 0}, p); REQ(std::fabs(q.real() - w.a) <= 1e-9 * (1 + std::fabs(w.a)) && std::fabs(q.imag() - w.b) <= 1e-9 * (1 + std::fabs(w.b))); }
      p = mul(p, b);
    }
  }
  g_hist = "base=(0,1) and (-1,0), extreme exponents"; const C I(0, 1), N(-1, 0);
  for (unsigned n : {0x7fffffffu, 0x7ffffffeu, 0x10000u, 0xffffu, 0x40000001u, 65537u}) {
    M w = n % 4 == 0 ? M{1, 0} : n % 4 == 1 ? M{0, 1} : n % 4 == 2 ? M{-1, 0} : M{0, -1}; REQ(eq(cest::pow(I, (int)n), w)); REQ(eq(cest::pow(I, -(int)n), {w.a, -w.b})); REQ(eq(cest::pow(N, (int)n), {n % 2 ? -1. : 1., 0})); }
  REQ(eq(cest::pow(I, (-2147483647 - 1)), {1, 0})); REQ(eq(cest::__complex_pow_unsigned(I, 0xffffffffu), {0, -1})); REQ(eq(cest::__complex_pow_unsigned(I, 0x80000001u), {0, 1}));
  printf("PASS %ld cases\n", g_cases);
}
