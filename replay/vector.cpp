// C01, C02: cest::vector against a sequence model, with lifetime-checked elements and an allocation ledger.
#include <cest/vector.hpp>
#include "common.hpp"
using namespace vp;
static bool lifetimes = true, values = true;
#undef REQ
#define REQ(c) do { if (!(c) && values) fail(#c, __FILE__, __LINE__); } while (0)
#define REQL(c) do { if (!(c) && lifetimes) fail(#c, __FILE__, __LINE__); } while (0)
 using V = cest::vector<Trk>;
struct A { int m[64]; int n = 0; };
static void same(V &v, const A &a) {
  const V &c = v; bool on = ledger_on;
  REQ((int)v.size() == a.n); REQ(v.empty() == (a.n == 0)); REQ(v.capacity() >= v.size());
  int i = 0; for (auto &x : v) { REQ(i < a.n); REQ(x == a.m[i]); i++; } REQ(i == a.n);
  i = 0; for (auto it = c.begin(); it != c.end(); ++it, ++i) REQ(it->v == a.m[i]); REQ(i == a.n);
  REQ(c.cend() - c.cbegin() == a.n);
  i = a.n; for (auto it = v.rbegin(); it != v.rend(); ++it) { --i; REQ(it->v == a.m[i]); } REQ(i == 0);
  i = a.n; for (auto it = c.rbegin(); it != c.rend(); ++it) { --i; REQ(it->v == a.m[i]); } REQ(i == 0);
  for (i = 0; i < a.n; i++) { REQ(v[i].v == a.m[i]); REQ(c[i].v == a.m[i]); REQ(v.at(i).v == a.m[i]); REQ(c.at(i).v == a.m[i]); REQ(v.data()[i].v == a.m[i]); REQ(c.data()[i].v == a.m[i]); }
  if (a.n) { REQ(v.front().v == a.m[0]); REQ(c.front().v == a.m[0]); REQ(v.back().v == a.m[a.n-1]); REQ(c.back().v == a.m[a.n-1]); }
  static int cnt; if (cnt++ % 32) return;
  ledger_on = false;
  for (size_t j : {(size_t)a.n, (size_t)a.n + 1, (size_t)-1}) {
    int t = 0; try { (void)v.at(j); } catch (std::out_of_range &) { t++; } try { (void)c.at(j); } catch (std::out_of_range &) { t++; } REQ(t == 2); }
  ledger_on = on;
}
struct Sim {
  V v[2]; A a[2]; int next = 1;
  bool fits(A &x) { return x.n < 40; }
  void op(int k, uint64_t r) {
    int w = r & 1, o = 1 - w; r >>= 1; V &x = v[w]; A &m = a[w];
    switch (k) {
    case 0: if (!fits(m)) return; say("v%ld.push_back(%ld)", w, next); { Trk t(next); x.push_back(t); REQ(t.v == next); } m.m[m.n++] = next++; break;
    case 1: if (!fits(m)) return; say("v%ld.push_back(move %ld)", w, next); { Trk t(next); x.push_back((Trk&&)t); } m.m[m.n++] = next++; break;
    case 2: if (!m.n || !fits(m)) return; { int j = r % m.n; say("v%ld.push_back(v[%ld])", w, j); x.push_back(x[j]); m.m[m.n] = m.m[j]; m.n++; } break;
    case 3: if (!m.n) return; say("v%ld.pop_back()", w); x.pop_back(); m.n--; break;
    case 4: { int c = r % 12; say("v%ld.resize(%ld)", w, c); x.resize(c); while (m.n < c) m.m[m.n++] = 0; m.n = c; } break;
    case 5: { int c = r % 20; say("v%ld.reserve(%ld)", w, c); auto cap = x.capacity(); x.reserve(c); REQ((int)x.capacity() >= c); REQ(x.capacity() >= cap); } break;
    case 6: say("v%ld.clear()", w); x.clear(); m.n = 0; break;
    case 7: say("v%ld = v%ld", w, o); REQ(&(x = v[o]) == &x); m = a[o]; break;
    case 8: say("v%ld = v%ld (self)", w, w); { V &y = x; x = y; } break;
    case 9: { int i = r % (m.n + 1), j = i + (r >> 8) % (m.n - i + 1); say("v%ld", w); say(".erase(%ld,%ld)", i, j);
      auto it = x.erase(x.begin() + i, x.begin() + j); REQ(it == x.begin() + i); for (int t = j; t < m.n; t++) m.m[i + t - j] = m.m[t]; m.n -= j - i; } break;
    case 10: say("swap v%ld v%ld", w, o); x.swap(v[o]); { A t = m; m = a[o]; a[o] = t; } break;
    case 11: say("copy of v%ld", w); { V c(x); same(c, m); if (m.n) { c[0].v = 77777; REQ(x[0].v == m.m[0]); } } break;
    case 12: say("v%ld = move(copy of v%ld)", w, o); { V c(v[o]); x = (V&&)c; m = a[o]; } break;
    case 13: say("v%ld moved out and back", w); { V c((V&&)x); same(c, m); x = (V&&)c; } break;
    case 14: say("v%ld = list of 3 from %ld", w, next); x = V{Trk(next), Trk(next + 1), Trk(next + 2)}; m.n = 3; for (int i = 0; i < 3; i++) m.m[i] = next++; break;
    case 15: { int c = r % 5; say("v%ld = vector(%ld)", w, c); x = V(c); m.n = c; for (int i = 0; i < c; i++) m.m[i] = 0; } break;
    case 16: say("v%ld = move(self)", w); { V &y = x; x = (V&&)y; } break;
    case 17: say("v%ld == v%ld", w, o); { bool e = m.n == a[o].n; for (int i = 0; e && i < m.n; i++) e = m.m[i] == a[o].m[i]; REQ((x == v[o]) == e); REQ(x == x); } break;
    case 18: if (!m.n || !fits(m)) return; say("v%ld.push_back(move of own last)", w); { int l = m.m[m.n-1]; x.push_back((Trk&&)x[m.n-1]); REQ(x.back().v == l); x[m.n-1].v = l; m.m[m.n] = l; m.n++; } break;
    }
    same(v[0], a[0]); same(v[1], a[1]); REQL(Trk::live == a[0].n + a[1].n);
    REQL(v[0].empty() || v[1].empty() || v[0].data() != v[1].data());
  }
};
constexpr int K = 19;
template <class T> struct MkV { static T mk(int v) { return T(v); } };
template <> struct MkV<std::string> { static std::string mk(int v) { return std::string(v % 5 * 9, 'a' + v % 26) + std::to_string(v); } };
struct BigV { double d[5]; BigV(int v = 0) { for (int i = 0; i < 5; i++) d[i] = v + i; } bool operator==(const BigV &o) const { return !memcmp(d, o.d, sizeof d); } };
template <class T> static void others(const char *nm, int cases, int steps) {   // other element types against std::vector
  for (int k = 0; k < cases; k++) { Rng r(seed() * 9176 + k); g_hist = nm; g_hist += ": "; long before = L.live; {
    cest::vector<T> v[2]; std::vector<T> m[2];
    for (int s = 0; s < steps; s++) { int w = r.below(2), o = 1 - w; auto &x = v[w]; auto &a = m[w]; int n = (int)r.below(1000); T t = MkV<T>::mk(n);
      switch (r.below(14)) {
      case 0: case 1: say("v%ld.push_back(%ld)", w, n); x.push_back(t); REQ(t == MkV<T>::mk(n)); a.push_back(t); break;
      case 2: case 3: say("v%ld.push_back(move %ld)", w, n); x.push_back(MkV<T>::mk(n)); a.push_back(t); break;
      case 4: if (a.empty()) break; { size_t j = n % a.size(); say("v%ld.push_back(v[%ld])", w, j); x.push_back(x[j]); T c = a[j]; a.push_back(c); } break;
      case 5: if (a.empty()) break; say("v%ld.pop_back()", w); x.pop_back(); a.pop_back(); break;
      case 6: say("v%ld.resize(%ld)", w, n % 20); x.resize(n % 20); a.resize(n % 20); break;
      case 7: say("v%ld.reserve(%ld)", w, n % 30); x.reserve(n % 30); REQ(x.capacity() >= (size_t)n % 30); break;
      case 8: say("v%ld = v%ld", w, o); x = v[o]; a = m[o]; break;
      case 9: { size_t i = n % (a.size() + 1), j = i + r.below(a.size() - i + 1); say("v%ld", w); say(".erase(%ld,%ld)", i, j); auto it = x.erase(x.begin() + i, x.begin() + j); REQ(it == x.begin() + i); a.erase(a.begin() + i, a.begin() + j); } break;
      case 10: say("swap v%ld v%ld", w, o); x.swap(v[o]); a.swap(m[o]); break;
      case 11: say("v%ld moved to and fro", w); { cest::vector<T> c((cest::vector<T>&&)x); x = (cest::vector<T>&&)c; } break;
      case 12: if (a.empty()) break; say("v%ld: write through", w); x[n % a.size()] = t; a[n % a.size()] = t; x.front() = x.back(); a.front() = a.back(); break;
      case 13: if (n % 4) break; say("v%ld.clear()", w); x.clear(); a.clear(); break;
      }
      for (int q = 0; q < 2; q++) { const auto &c = v[q]; REQ(c.size() == m[q].size()); REQ(c.empty() == m[q].empty()); REQ(c.end() - c.begin() == (ptrdiff_t)m[q].size()); for (size_t i = 0; i < m[q].size(); i++) { REQ(c[i] == m[q][i]); REQ(v[q].at(i) == m[q][i]); REQ(&c.data()[i] == &v[q][i]); } cest::vector<T> d(c); REQ(d == c); }
      REQ((v[0] == v[1]) == (m[0] == m[1])); } }
    if (L.live != before) { g_hist = nm; REQL(!"all storage is released"); } g_cases++; }
}
struct MO { int v = 0; MO() {} MO(int x) : v(x) {} MO(MO &&o) : v(o.v) { o.v = -1; } MO &operator=(MO &&o) { v = o.v; o.v = -1; return *this; } };
template <class X, int... I> static void list_of(std::integer_sequence<int, I...>) { X x{I...}; REQ((int)x.size() == (int)sizeof...(I)); int i = 0; for (auto &e : x) { REQ(e == i); i++; } REQ(i == (int)sizeof...(I)); g_cases++; }
template <class X> static void lists() { g_hist = "braced list of n, n+1, ... elements"; list_of<X>(std::make_integer_sequence<int, 1>()); list_of<X>(std::make_integer_sequence<int, 2>()); list_of<X>(std::make_integer_sequence<int, 7>()); list_of<X>(std::make_integer_sequence<int, 8>()); list_of<X>(std::make_integer_sequence<int, 9>()); list_of<X>(std::make_integer_sequence<int, 17>()); list_of<X>(std::make_integer_sequence<int, 33>()); list_of<X>(std::make_integer_sequence<int, 65>()); list_of<X>(std::make_integer_sequence<int, 128>()); list_of<X>(std::make_integer_sequence<int, 257>()); list_of<X>(std::make_integer_sequence<int, 1000>()); list_of<X>(std::make_integer_sequence<int, 2050>()); }
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "C01")) lifetimes = false;
  if (argc > 1 && !strcmp(argv[1], "C02")) values = false;
  check_release = lifetimes;
  static char buf[1 << 16]; g_hist.reserve(sizeof buf);
  auto run = [&](auto f) { g_hist.clear(); ledger_on = true; long before = L.live; { Sim s; f(s); } ledger_on = false; g_cases++;
    REQL(Trk::live == 0); REQL(L.live == before); };
  // all sequences of three operations after short prefixes
  for (int pre = 0; pre < 6; pre++) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (int k = 0; k < (pre < 3 ? K : 1); k++)
    run([&](Sim &s) { for (int t = 0; t < pre; t++) s.op(t & 1, 0); s.op(i, 6 + 260 * pre); s.op(j, 2 + 6 * pre); if (pre < 3) s.op(k, 4); });
  // large sizes
  for (int n : {63, 64, 65, 127, 129, 255, 257, 1000, 1025, 5000}) {
    g_hist.clear(); say("large n=%ld", n); long before = L.live; ledger_on = true; {
      V v; for (int i = 0; i < n; i++) v.push_back(Trk(i)); REQ((int)v.size() == n);
      V c(v), d(3), e; d = v; e = (V&&)c; e.reserve(2 * n + 1); d.resize(n + n / 2); 
      for (int i = 0; i < n; i++) { REQ(v[i].v == i); REQ(d[i].v == i); REQ(e[i].v == i); REQ(v.at(i).v == i); } for (int i = n; i < n + n / 2; i++) REQ(d[i].v == 0);
      REQ(v == e); REQ(v.back().v == n - 1); REQ(v.rbegin()->v == n - 1); e[n - 1].v = -5; REQ(!(v == e)); e[n - 1].v = n - 1; e[n / 2].v = -4; REQ(!(v == e)); e[0].v = 1; REQ(!(v == e));
      v.erase(v.begin() + n / 4, v.begin() + n / 2); REQ((int)v.size() == n - (n / 2 - n / 4)); for (int i = 0; i < (int)v.size(); i++) REQ(v[i].v == (i < n / 4 ? i : i + n / 2 - n / 4));
      v.resize(n / 8); REQ((int)v.size() == n / 8); v.pop_back(); d.clear(); REQ(d.empty()); v.swap(e); REQL(Trk::live == (long)(v.size() + e.size() + d.size() + c.size())); }
    ledger_on = false; REQL(Trk::live == 0); REQL(L.live == before); g_cases++; }
  lists<cest::vector<int>>(); lists<cest::vector<long>>();
  Rng r(seed()); int N = thorough() ? 60000 : 4000;
  for (int t = 0; t < N; t++) run([&](Sim &s) { int len = 5 + r.below(40); for (int i = 0; i < len; i++) { int k = r.below(K + 6); s.op(k >= K ? (k & 1) : k, r.next() >> 8); } });
  { int q = thorough() ? 50 : 3; ledger_on = true; others<int>("vector<int>", 100 * q, 40); others<char>("vector<char>", 40 * q, 40); others<std::string>("vector<string>", 100 * q, 40); others<BigV>("vector<BigV>", 60 * q, 40); others<double>("vector<double>", 40 * q, 40); ledger_on = false; g_hist = "move-only elements"; cest::vector<MO> v; for (int i = 0; i < 100; i++) v.push_back(MO(i)); cest::vector<MO> w((cest::vector<MO>&&)v); for (int i = 0; i < 100; i++) REQ(w[i].v == i); }
  printf("PASS %ld cases\n", g_cases);
}
