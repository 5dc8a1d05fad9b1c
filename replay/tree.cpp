// C09, C10, C11, C12: cest::set and cest::map against std::set / std::map; depth and comparison counts; iteration.
#include <utility>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <functional>
#include <cmath>
#include "common.hpp"
using namespace vp;
static bool doset = true, domap = true, cont = true, bal = true, its = true;
static long ncmp = 0;
template <class T> struct Mk { static T mk(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string mk(int v) { return std::string(v % 5 * 9, 'a' + v % 26) + std::to_string(v); } };
struct Big { double d[5]; Big(int v = 0) { for (int i = 0; i < 5; i++) d[i] = v + i; } bool operator==(const Big &o) const { return !memcmp(d, o.d, sizeof d); } };
struct NoEq { int v; explicit NoEq(int v = 0) : v(v) {} };                      // key without operator==
struct OddEq { int v; explicit OddEq(int v = 0) : v(v) {} bool operator==(const OddEq &o) const { return v / 3 == o.v / 3; } };  // == coarser than the order
template <class K> struct Less { bool operator()(const K &a, const K &b) const { ncmp++; return a < b; } };
template <class K> struct Greater { bool operator()(const K &a, const K &b) const { ncmp++; return b < a; } };
template <class K> struct LessV { bool operator()(const K &a, const K &b) const { ncmp++; return a.v < b.v; } };
struct Half { bool operator()(int a, int b) const { ncmp++; return a / 2 < b / 2; } };          // classes of two equivalent keys
struct Tens { bool operator()(int a, int b) const { ncmp++; return a % 10 < b % 10; } };
struct LastDigitFirst { bool operator()(int a, int b) const { ncmp++; return a % 10 != b % 10 ? a % 10 < b % 10 : a < b; } };
static int lg2x2(size_t n) { return (int)std::floor(2 * std::log2((double)n + 1) + 1e-9); }
template <class K> static const K &keyof(const K &k) { return k; }
template <class K, class V> static const K &keyof(const std::pair<const K, V> &k) { return k.first; }
template <class N> static int depth(N *n) { if (!n) return 0; int a = depth(n->l), b = depth(n->r); return 1 + (a > b ? a : b); }
template <class C> static void shape(C &c) { if constexpr (requires { c.m_root->l; c.m_root->r; }) REQ(depth(c.m_root) <= lg2x2(c.size())); }
template <class C, class K> static void budget(C &c, const K &k) { if (!bal) return; const C &cc = c; ncmp = 0; (void)c.find(k); REQ(ncmp <= 2 * lg2x2(c.size())); ncmp = 0; (void)cc.find(k); REQ(ncmp <= 2 * lg2x2(c.size())); }
template <class I, class M> static void walk(I b, I e, M &m) {
  I it = b; size_t i = 0; for (auto &x : m) { REQ(!(it == e)); REQ(it != e); I k = it; 
    if constexpr (requires { x.first; x.second; }) { REQ(&keyof(*it) == &keyof(*it.operator->())); REQ(it->second == x.second); REQ(!std::less<>()(0, 0)); } else REQ(it.operator->() == &*it);
    REQ(it == k); if (i & 1) { I &q = ++it; REQ(&q == &it); } else { I o = it++; REQ(o == k); REQ(o != it); I o2 = o; ++o2; REQ(o2 == it); } i++; }
  REQ(it == e); REQ(!(it != e)); REQ(i == m.size()); }
template <class I, class M, class Cmp> static void order(I b, I e, M &m, Cmp lt) { size_t n = 0; I p = b; for (I it = b; !(it == e) && n <= m.size(); ++it, n++) { if (n) REQ(lt(keyof(*p), keyof(*it))); p = it; } REQ(n == m.size()); }
template <class C, class M, class Cmp> static void same(C &c, M &m, Cmp lt) {
  const C &cc = c; REQ(c.size() == m.size()); REQ(cc.size() == m.size()); REQ(c.empty() == m.empty());
  if (its) { walk<typename C::const_iterator>(c.begin(), c.end(), m); if (!m.empty()) walk<typename C::iterator>(c.find(keyof(*m.begin())), c.end(), m); walk(cc.begin(), cc.end(), m); walk(cc.cbegin(), cc.cend(), m); order(cc.begin(), cc.end(), m, lt); 
    typename C::const_iterator k(c.begin()); REQ(k == cc.begin()); for (auto it = cc.begin(); it != cc.end(); ++it) { auto q = it, z = it; ++q; z++; REQ(q == z); } }
  if (cont) { auto j = m.begin(); for (auto it = cc.begin(); j != m.end(); ++it, ++j) { REQ(!(it == cc.end())); if constexpr (requires { j->second; }) { REQ(!lt(it->first, j->first) && !lt(j->first, it->first)); REQ(it->second == j->second); } else REQ(!lt(*it, *j) && !lt(*j, *it)); } }
  if (bal) shape(c);
}
template <class K> static bool samekey(const K &a, const K &b) { if constexpr (requires { a == b; }) return a == b; else return a.v == b.v; }
template <class C, class M, class K, class MkV> static void ins(C &c, M &m, const K &k, MkV mk, int hint) {
  auto v = mk(k); size_t n = m.size(); auto e = m.insert(v); ncmp = 0;
  if constexpr (requires { c.insert(c.begin(), v); }) if (hint) { auto it = c.insert(c.begin(), v); REQ(it != c.end()); if (cont) { REQ(samekey(keyof(*it), keyof(*e.first))); } return; }
  auto r = c.insert(v); if (bal) REQ(ncmp <= 2 * lg2x2(n) + 2);
  if (cont) { REQ(r.second == e.second); REQ(r.first != c.end()); REQ(samekey(keyof(*r.first), keyof(*e.first))); REQ(c.find(keyof(*r.first)) == r.first); REQ(c.size() == m.size()); if constexpr (requires { e.first->second; }) REQ(r.first->second == e.first->second); }
}
template <class C, class M, class K> static void look(C &c, M &m, const K &k) {
  const C &cc = c; auto e = m.find(k); auto it = c.find(k); auto ic = cc.find(k);
  if (cont) { REQ((it == c.end()) == (e == m.end())); REQ((ic == cc.end()) == (e == m.end())); 
    if (e != m.end()) { REQ(samekey(keyof(*it), keyof(*e))); REQ(samekey(keyof(*ic), keyof(*e))); if constexpr (requires { e->second; }) { REQ(it->second == e->second); REQ(ic->second == e->second); } } }
  budget(c, k);
}
// any mixture of operations on two containers
template <class C, class M, class K, class Cmp, class MkV> static void mix(const char *nm, int cases, int steps, int range, Cmp lt, MkV mkv) {
  for (int k = 0; k < cases; k++) {
    Rng r(seed() * 7919 + k * 131 + range); g_hist.clear(); g_hist.shrink_to_fit(); long live0 = Trk::live, mem0 = L.live; g_cases++; g_hist = nm; g_hist += ": ";
    { std::unique_ptr<C> cs[2]; M ms[2]; for (int i = 0; i < 2; i++) cs[i].reset(new C);
      for (int s = 0; s < steps; s++) { int w = r.below(4) == 0; C &c = *cs[w]; M &m = ms[w]; int cnt = 1 + r.below(8); auto key = [&](int v) { return Mk<K>::mk(v); };
        switch (r.below(14)) {
        case 0: case 1: case 2: case 3: for (int i = 0; i < cnt; i++) { int v = r.below(range); say("c%ld.insert(%ld)", w, v); ins(c, m, key(v), mkv, 0); } break;
        case 4: { int v = r.below(range); say("c%ld.insert %ld.. ascending", w, v); for (int i = 0; i < cnt; i++) ins(c, m, key(v + i), mkv, 0); break; }
        case 5: { int v = r.below(range) + 8; say("c%ld.insert %ld.. descending", w, v); for (int i = 0; i < cnt; i++) ins(c, m, key(v - i), mkv, 0); break; }
        case 6: { int v = r.below(range); say("c%ld.insert(hint, %ld)", w, v); ins(c, m, key(v), mkv, 1); break; }
        case 7: if (!m.empty()) { auto j = m.begin(); for (int q = r.below(m.size()); q; q--) ++j; say("c%ld.insert(an own element)", w); auto it = c.find(keyof(*j)); REQ(it != c.end()); auto z = c.insert(*it); if (cont) REQ(!z.second && z.first == it); } break;
        case 8: for (int i = -2; i < 12; i++) { int v = r.below(range + 4); say("c%ld.find(%ld)", w, v); look(c, m, key(v)); } break;
        case 9: if (r.below(3) == 0) { say("c%ld.clear()", w); c.clear(); m.clear(); } break;
        case 10: say("c%ld = c%ld", w, 1 - w); REQ(&(c = *cs[1 - w]) == &c); m = ms[1 - w]; break;
        case 11: say("c%ld = itself", w); REQ(&(c = (const C&)c) == &c); break;
        case 12: { say("copy of c%ld", w); C d(c); M mm = m; same(d, mm, lt); int v = r.below(range); ins(d, mm, key(v), mkv, 0); same(d, mm, lt); if (r.below(2)) { d.clear(); } else if (r.below(2)) { cs[w].reset(new C(d)); m = mm; } break; }
        case 13: if constexpr (requires { m.begin()->second; }) if (!m.empty()) { auto j = m.begin(); for (int q = r.below(m.size()); q; q--) ++j; say("c%ld: value changed through an iterator", w); auto it = c.find(j->first); REQ(it != c.end()); it->second = j->second = mkv(key(r.below(99))).second; } break;
        }
        same(*cs[0], ms[0], lt); same(*cs[1], ms[1], lt);
      } }
    g_hist += "destroyed"; if (cont) { REQ(Trk::live == live0); g_hist.clear(); g_hist.shrink_to_fit(); if (L.live != mem0) { g_hist = nm; say(": case %ld", k); fail("every node is released", __FILE__, __LINE__); } }
  }
}
// insertion orders of 0..n-1
template <class C, class M, class K, class Cmp, class MkV> static void orders(const char *nm, Cmp lt, MkV mkv) {
  auto key = [&](int v) { return Mk<K>::mk(v); };
  auto probe = [&](C &c, M &m, int n) { same(c, m, lt); if (n < 70) for (int v = -1; v <= 2 * n + 1; v++) look(c, m, key(v)); else { for (int v = 0; v <= 2 * n; v += 1 + n / 40) look(c, m, key(v)); } };
  // all permutations of up to 6 keys (7 in the thorough tier), probing between the keys
  for (int n = 0; n <= (thorough() ? 8 : 6); n++) { std::vector<int> p; for (int i = 0; i < n; i++) p.push_back(i);
    do { g_cases++; g_hist = nm; g_hist += ": insert"; C c; M m; for (int v : p) { say(" %ld", 2 * v); ins(c, m, key(2 * v), mkv, 0); } probe(c, m, n); } while (std::next_permutation(p.begin(), p.end())); }
  int nmax = thorough() ? 20000 : 3000; 
  for (int n : {7, 12, 15, 16, 31, 33, 60, 64, 127, 128, 257, 1000, nmax}) for (int o = 0; o < 8; o++) {
    g_cases++; g_hist = nm; say(": %ld keys, order %ld", n, o); Rng r(n * 8 + o + seed()); std::vector<int> p; for (int i = 0; i < n; i++) p.push_back(2 * i);
    switch (o) { case 0: break; case 1: std::reverse(p.begin(), p.end()); break;
      case 2: { std::vector<int> q; for (int i = 0; i < n; i++) q.push_back(i & 1 ? p[n - 1 - i / 2] : p[i / 2]); p = q; break; }                       // outside in
      case 3: { std::vector<int> q; for (int i = 0; i < n; i++) { int t = i & 1 ? n / 2 + i / 2 + (n & 1 ? 1 : 0) : (n - 1) / 2 - i / 2; q.push_back(p[(t + n) % n]); } std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end()); std::vector<int> z; for (size_t i = 0; i < q.size(); i++) { size_t h = q.size() / 2; z.push_back(q[i & 1 ? (h + i / 2 + 1) % q.size() : (h + q.size() - i / 2) % q.size()]); } p = z; break; } // inside out
      case 4: std::sort(p.begin(), p.end(), [](int a, int b) { return a % 14 != b % 14 ? a % 14 < b % 14 : a < b; }); break;                         // strided
      default: for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.below(i + 1)]); }
    C c; M m; int i = 0; for (int v : p) { ins(c, m, key(v), mkv, 0); if (bal && ((i & (i - 1)) == 0 || n < 70)) shape(c); if (i++ % 5 == 0) ins(c, m, key(p[r.below(i)]), mkv, 0); } probe(c, m, n);
    C d(c); probe(d, m, n); C e; e = d; d.clear(); if (cont) REQ(d.empty()); probe(e, m, n); }
}
template <class K, class Cmp> static void sets(const char *nm, int cases, int steps, int range) { Cmp lt; mix<cest::set<K, Cmp>, std::set<K, Cmp>, K>(nm, cases, steps, range, lt, [](const K &k) { return k; }); }
template <class K, class V, class Cmp> static void maps(const char *nm, int cases, int steps, int range) { Cmp lt; static int cnt; mix<cest::map<K, V, Cmp>, std::map<K, V, Cmp>, K>(nm, cases, steps, range, lt, [](const K &k) { return std::pair<const K, V>(k, Mk<V>::mk(cnt++ % 9999)); }); }
int main(int c, char **v) {
  ledger_on = true; std::string p = c > 1 ? v[1] : ""; int q = thorough() ? 15 : 1;
  if (p == "C09") domap = bal = its = false; if (p == "C11") doset = bal = its = false; if (p == "C10") cont = its = false; if (p == "C12") cont = bal = false;
  if (doset) {
    orders<cest::set<int, Less<int>>, std::set<int, Less<int>>, int>("set<int>", Less<int>(), [](int k) { return k; });
    orders<cest::set<int, Greater<int>>, std::set<int, Greater<int>>, int>("set<int, greater>", Greater<int>(), [](int k) { return k; });
    sets<int, std::less<int>>("set<int>", 60 * q, 30, 40); sets<int, Less<int>>("set<int>", 20 * q, 60, 400); sets<int, Half>("set<int, half>", 60 * q, 30, 40); sets<int, Tens>("set<int, mod 10>", 30 * q, 30, 60); sets<int, LastDigitFirst>("set<int, last digit first>", 30 * q, 40, 100);
    sets<Trk, Less<Trk>>("set<Trk>", 60 * q, 30, 40); sets<std::string, std::less<std::string>>("set<string>", 30 * q, 30, 60); sets<NoEq, LessV<NoEq>>("set<NoEq>", 20 * q, 30, 40); sets<OddEq, LessV<OddEq>>("set<OddEq>", 20 * q, 30, 40);
    { g_hist = "set<string>: find by a literal"; cest::set<std::string, std::less<>> s; const auto &cs = s; for (const char *t : {"delta", "alpha", "echo", "bravo", "charlie"}) { s.insert(t); } if (cont) { for (const char *t : {"delta", "alpha", "echo", "bravo", "charlie"}) { REQ(*s.find(t) == t); REQ(*cs.find(t) == t); } REQ(s.find("aaa") == s.end()); REQ(cs.find("zulu") == cs.end()); REQ(s.find("dela") == s.end()); } }
    for (int n = 0; n < 80 && cont; n++) { g_hist = "set<long>: every key of another type looked up after "; say("%ld insertions", n); cest::set<long, std::less<>> s; const auto &cs = s; std::set<long> m; for (int i = 0; i < n; i++) { s.insert(i * 37 % 101); m.insert(i * 37 % 101); } for (int j = -1; j < 103; j++) { short i = j; bool in = m.count(j); auto a = s.find(i); auto b = cs.find(i); REQ((a != s.end()) == in); REQ((b != cs.end()) == in); if (in) { REQ(*a == j); REQ(*b == j); } } }
    { g_hist = "set<int>: find by a long"; cest::set<long> s; for (int i = 0; i < 100; i += 2) s.insert(i * 37 % 101); for (short i = 0; i < 101; i++) { bool in = false; for (int k = 0; k < 100; k += 2) in |= k * 37 % 101 == i; if (cont) { REQ((s.find(i) != s.end()) == in); } } }
  }
  if (domap) {
    orders<cest::map<int, int, Less<int>>, std::map<int, int, Less<int>>, int>("map<int,int>", Less<int>(), [](int k) { return std::pair<const int, int>(k, k * 3 + 1); });
    maps<int, int, std::less<int>>("map<int,int>", 60 * q, 30, 40); maps<int, std::string, Less<int>>("map<int,string>", 20 * q, 60, 400); maps<int, int, Half>("map<int,int,half>", 60 * q, 30, 40); maps<int, Trk, Greater<int>>("map<int,Trk,greater>", 40 * q, 30, 40); maps<int, int, LastDigitFirst>("map<int,int,last digit first>", 30 * q, 40, 100);
    maps<Trk, Trk, Less<Trk>>("map<Trk,Trk>", 60 * q, 30, 40); maps<std::string, int, std::less<std::string>>("map<string,int>", 30 * q, 30, 60); maps<OddEq, int, LessV<OddEq>>("map<OddEq,int>", 40 * q, 30, 40);
#ifndef NO_NOEQ
    maps<NoEq, int, LessV<NoEq>>("map<NoEq,int>", 20 * q, 30, 40);
    for (int n = 0; n < 80 && cont; n++) { g_hist = "map<long,int>: every key of another type looked up after "; say("%ld insertions", n); cest::map<long, int, std::less<>> s; const auto &cs = s; std::map<long, int> m; for (int i = 0; i < n; i++) { s.insert({ i * 37 % 101, i }); m.insert({ i * 37 % 101, i }); } for (int j = -1; j < 103; j++) { short i = j; bool in = m.count(j); auto a = s.find(i); auto b = cs.find(i); REQ((a != s.end()) == in); REQ((b != cs.end()) == in); if (in) { REQ(a->second == m[j]); REQ(b->second == m[j]); } } }
    { g_hist = "map<string,int>: find by a literal"; cest::map<std::string, int> s; const auto &cs = s; int n = 0; for (const char *t : {"delta", "alpha", "echo", "bravo", "charlie"}) { s.insert({t, n++}); } if (cont) { n = 0; for (const char *t : {"delta", "alpha", "echo", "bravo", "charlie"}) { REQ(s.find(t)->second == n); REQ(cs.find(t)->second == n); n++; } REQ(s.find("aaa") == s.end()); REQ(cs.find("zulu") == cs.end()); } }
#endif
  }
  ledger_on = false; printf("PASS %ld cases\n", g_cases);
}
