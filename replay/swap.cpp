// Replay driver for C22: distinct values in every position, at scattered addresses, 1 to 8 arguments.
#include "common.hpp"
#include <cest/swap.hpp>
using namespace vp;
template <size_t... I, class T> void go(std::index_sequence<I...>, T **p, bool r) { if (r) nary::swapr(*p[I]...); else nary::swap(*p[I]...); }
template <int N, class T> void test(uint64_t s) {
  Rng r(s); constexpr bool two = N > 1;
  for (int rep = 0; rep < 50; rep++) {
    std::vector<T> a(16); int idx[16]; for (int i = 0; i < 16; i++) idx[i] = i;
    for (int i = 15; i; i--) std::swap(idx[i], idx[r.below(i + 1)]);
    int v[N]; T *p[N]; for (int i = 0; i < N; i++) { v[i] = rep == 0 ? i + 1 : rep == 1 ? 7 : (int)r.below(1000); a[idx[i]] = T(v[i]); p[i] = &a[idx[i]]; }
    g_hist.clear(); say("swap of %ld arguments, repetition %ld", N, rep); g_cases++;
    go(std::make_index_sequence<N>{}, p, false); for (int i = 0; i < N; i++) REQ(*p[i] == T(v[(i + 1) % N]));
    go(std::make_index_sequence<N>{}, p, true); for (int i = 0; i < N; i++) REQ(*p[i] == T(v[i]));
    g_hist += "swapr; "; go(std::make_index_sequence<N>{}, p, true); for (int i = 0; i < N; i++) REQ(*p[i] == T(v[(i + N - 1) % N]));
  }
}
template <int... K> void all(std::integer_sequence<int, K...>) { ((test<K + 1, Trk>(seed() + K), test<K + 1, int>(seed() + K), test<K + 1, double>(seed())), ...); }
int main() {
  nary::swap(); nary::swapr(); all(std::make_integer_sequence<int, 8>{}); g_hist = "after all swaps"; REQ(Trk::live == 0);
  { const double D[] = {1e300, 1, -1e-300, 5e-324, 0.1, 1e17, -3}; for (double a : D) for (double b : D) { double x = a, y = b; g_hist = "two doubles"; nary::swap(x, y); REQ(x == b && y == a); nary::swapr(x, y); REQ(x == a && y == b); float f = (float)a, g = (float)b, f0 = f, g0 = g; nary::swap(f, g); REQ(f == g0 && g == f0); double z = 1e250; nary::swap(x, y, z); REQ(x == b && y == 1e250 && z == a); } }
  { const int I[] = {-2147483647 - 1, 2147483647, 0, -1, 5}; for (int a : I) for (int b : I) { int x = a, y = b; g_hist = "two ints"; nary::swap(x, y); REQ(x == b && y == a); nary::swapr(x, y); REQ(x == a && y == b); char c = (char)a, d = (char)b; nary::swap(c, d); REQ(c == (char)b && d == (char)a); } }
  { struct Big { long v[40]; bool operator==(const Big &o) const { return !memcmp(this, &o, sizeof o); } }; Big a{}, b{}, c{}; a.v[0] = 1; a.v[39] = 2; b.v[20] = 3; c.v[39] = 9; Big a0 = a, b0 = b, c0 = c; g_hist = "large trivially copyable objects"; nary::swap(a, b, c); REQ(a == b0 && b == c0 && c == a0); nary::swapr(a, b, c); REQ(a == a0 && b == b0 && c == c0); nary::swap(a, b); REQ(a == b0 && b == a0); }
  { std::string a(3, 'a'), b(300, 'b'), c; g_hist = "strings"; nary::swap(a, b, c); REQ(a.size() == 300 && b.empty() && c == "aaa"); }
  { std::unique_ptr<int> a(new int(1)), b, c(new int(3)); g_hist = "move-only objects"; nary::swap(a, b, c); REQ(!a && *b == 3 && *c == 1); }
  // pointers: the tree rebalancing rotates node pointers
  int x = 1, y = 2, z = 3; int *a = &x, *b = &y, *c = &z, *d = nullptr; g_hist = "pointers"; nary::swap(a, b, c, d); REQ(a == &y && b == &z && c == nullptr && d == &x);
  printf("PASS %ld cases\n", g_cases);
}
