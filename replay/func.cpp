// C16: cest::function over many signatures and callables.
#include <cest/functional.hpp>
#include "common.hpp"
using namespace vp;
static long calls; static std::string seen;
struct Cal { Trk t; int id; explicit Cal(int i) : t(i), id(i) {} int operator()(int a, Trk b, const Trk &c, Trk &d, Trk &&e) { t.chk(); calls++; seen = std::to_string(id) + ":" + std::to_string(a) + "," + std::to_string(b.v) + "," + std::to_string(c.v) + "," + std::to_string(d.v) + "," + std::to_string(e.v); d.v++; Trk z((Trk&&)e); return id * 1000 + a; } };
struct VCal { Trk t; explicit VCal(int i) : t(i) {} void operator()(long a, const char *s, double d) { t.chk(); calls++; seen = std::to_string(t.v) + ":" + std::to_string(a) + s + std::to_string(d); } };
struct Big { Trk a[20]; int n = 0; int operator()(int x) { for (auto &q : a) q.chk(); return n += x; } };
static int ffree(int a, int b, int c, int d, int e, int f, int g, int h) { calls++; return a + 10 * b + 100 * c + 1000 * d + 10000 * e + 100000 * f + 1000000 * g + 10000000 * h; }
static void vfree(int &x, int y) { calls++; x = y * 2; }
static int none() { calls++; return 42; }
struct MoveOnlyRet { std::unique_ptr<int> p; };
int main() {
  ledger_on = true;
  for (int n = 1; n < 60; n++) { g_hist = "value-returning callable"; say(" %ld", n); g_cases++; { Cal c(n); cest::function<int(int, Trk, const Trk&, Trk&, Trk&&)> f(c); REQ(c.t.v == n); c.t.v = -5; c.id = -5; Trk b(1), cc(2), d(3), e(4); calls = 0; int r = f(n * 7, b, cc, d, (Trk&&)e); REQ(calls == 1); REQ(r == n * 1000 + n * 7); REQ(seen == std::to_string(n) + ":" + std::to_string(n * 7) + ",1,2,3,4"); REQ(b.v == 1 && cc.v == 2 && d.v == 4 && e.v == -1);
      calls = 0; r = f(-n, Trk(9), Trk(8), d, Trk(7)); REQ(calls == 1 && r == n * 1000 - n); REQ(seen == std::to_string(n) + ":" + std::to_string(-n) + ",9,8,4,7"); REQ(d.v == 5);
      auto g = std::move(f); calls = 0; r = g(1, b, b, d, Trk(2)); REQ(calls == 1 && r == n * 1000 + 1); cest::function<int(int, Trk, const Trk&, Trk&, Trk&&)> h(Cal(n + 100)); h = std::move(g); calls = 0; r = h(5, b, b, d, Trk(2)); REQ(calls == 1 && r == n * 1000 + 5); seen.clear(); seen.shrink_to_fit(); }
    REQ(Trk::live == 0); }
  for (int n = 0; n < 30; n++) { g_hist = "void callable"; say(" %ld", n); { cest::function<void(long, const char*, double)> f{VCal(n)}; calls = 0; f(n * 1234567890123l, "x", n / 4.0); REQ(calls == 1); REQ(seen == std::to_string(n) + ":" + std::to_string(n * 1234567890123l) + "x" + std::to_string(n / 4.0)); VCal v(n + 1); cest::function<void(long, const char*, double)> g(v); REQ(v.t.v == n + 1); f = std::move(g); f(1, "", 0); REQ(seen == std::to_string(n + 1) + ":1" + std::to_string(0.0)); REQ(calls == 2); seen.clear(); seen.shrink_to_fit(); } REQ(Trk::live == 0); }
  { g_hist = "state is private and kept"; int ext = 0; Big big; cest::function<int(int)> f(big); REQ(f(2) == 2 && f(3) == 5 && big.n == 0); cest::function<int(int)> g(big); REQ(g(1) == 1 && f(1) == 6); auto lam = [&ext, k = 3](int x) mutable { ext++; return k += x; }; cest::function<int(int)> l(lam); REQ(l(1) == 4 && l(1) == 5 && ext == 2); REQ(lam(0) == 3); }
  REQ(Trk::live == 0);
  { g_hist = "state of a void callable"; int last = 0; cest::function<void(int)> f([&last, n = 0](int d) mutable { n += d; last = n; }); f(1); f(2); REQ(last == 3); f(10); REQ(last == 13); void *a = 0, *b = 0; struct W { void **p; void operator()(void **q) { *q = this; } }; cest::function<void(void**)> w(W{}); w(&a); w(&b); REQ(a == b); }
  { g_hist = "eight arguments in order"; cest::function<int(int, int, int, int, int, int, int, int)> f(ffree), g(&ffree); calls = 0; REQ(f(1, 2, 3, 4, 5, 6, 7, 8) == 87654321); REQ(g(8, 7, 6, 5, 4, 3, 2, 1) == 12345678); REQ(calls == 2); }
  { g_hist = "void function pointer"; cest::function<void(int&, int)> f(vfree); int x = 0; calls = 0; f(x, 21); REQ(x == 42 && calls == 1); }
  { g_hist = "no arguments"; cest::function<int()> f(none); calls = 0; REQ(f() == 42 && calls == 1); cest::function<void()> v(none); v(); REQ(calls == 2); cest::function d(none); REQ(d() == 42); }
  { g_hist = "results of other types"; cest::function<double(float)> f([](float x) { return x * 0.5; }); REQ(f(3) == 1.5); cest::function<unsigned char(long)> g([](long x) { return x; }); REQ(g(513) == 1); cest::function<bool(int)> b([](int x) { return x > 3; }); REQ(b(4) && !b(3)); cest::function<int&(int*)> r([](int *p) -> int& { return *p; }); int z = 5; r(&z) = 6; REQ(z == 6); cest::function<Trk(int)> t([](int i) { return Trk(i); }); REQ(t(5).v == 5); cest::function<std::string(std::string, const std::string&)> s([](std::string a, const std::string &c) { return a + c; }); REQ(s(std::string(40, 'a'), "b").size() == 41); cest::function<MoveOnlyRet(std::unique_ptr<int>)> m([](std::unique_ptr<int> p) { return MoveOnlyRet{std::move(p)}; }); REQ(*m(std::unique_ptr<int>(new int(3))).p == 3); cest::function<long(long, long)> dv([](long a, long c) { return a - c; }); REQ(dv(10, 3) == 7); cest::function<void(int)> ig([](int) { return 5; }); ig(1); }
  REQ(Trk::live == 0); g_hist.clear(); g_hist.shrink_to_fit(); seen.clear(); seen.shrink_to_fit(); g_hist = "storage"; REQ(L.live == 0); ledger_on = false;
  printf("PASS %ld cases\n", g_cases);
}
