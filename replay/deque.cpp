// C05, C06, C13: cest::deque (elements, iterators) and cest::queue against std::deque.
#include <cest/deque.hpp>
#include <cest/queue.hpp>
#include <cest/list.hpp>
#include "common.hpp"
using namespace vp;
template <class T> struct Mk { static T mk(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string mk(int v) { return std::string(v % 5 * 9, 'a' + v % 26) + std::to_string(v); } };
struct Big { double d[5]; Big(int v = 0) { for (int i = 0; i < 5; i++) d[i] = v + i; } bool operator==(const Big &o) const { return !memcmp(d, o.d, sizeof d); } };
template <class T> using D_ = cest::deque<T>;
static bool seq = true, its = true;
template <class T> static void ends(D_<T> &l, std::deque<T> &m) {
  const D_<T> &c = l; REQ(l.size() == m.size()); REQ(c.size() == m.size()); REQ(l.empty() == m.empty());
  if (seq && !m.empty()) { REQ(l.front() == m.front()); REQ(l.back() == m.back()); REQ(c.front() == m.front()); REQ(c.back() == m.back()); REQ(&l.front() == &l[0]); REQ(&c.back() == &l[m.size() - 1]); }
}
template <class I, class D, class M> static void walk(I b, I e, D &l, M &m, Rng &r) {
  ptrdiff_t n = m.size(), i = 0; I it = b; REQ(e - b == n); REQ(b - e == -n); REQ(b - b == 0); REQ(e - e == 0); REQ((b == e) == (n == 0));
  std::vector<I> pos; pos.reserve(n + 1);
  for (; i < n; i++) { REQ(!(it == e)); REQ(&*it == &l[i]); REQ(it.operator->() == &l[i]); pos.push_back(it); I k = it, k0 = it;
    if (i & 1) { I &q = ++it; REQ(&q == &it); } else { I o = it++; REQ(o == k0); REQ(o - b == i); REQ(it - o == 1); ++o; REQ(o == it); }
    I d = it, d0 = it; if (i & 2) { I &q = --d; REQ(&q == &d); } else { I o = d--; REQ(o == d0); REQ(o - b == i + 1); REQ(o - d == 1); --o; REQ(o == d); } REQ(d == k); REQ(d.operator->() == &l[i]); ++d; REQ(d == it); REQ(it - b == i + 1); REQ(b - it == -i - 1); REQ(e - it == n - i - 1); }
  REQ(it == e); pos.push_back(it);
  for (i = n; i > 0; i--) { --it; REQ(&*it == &l[i - 1]); REQ(it == pos[i - 1]); } REQ(it == b);
  for (int q = 0; q < 60; q++) { size_t x = r.below(n + 1), y = r.below(n + 1); REQ(pos[x] - pos[y] == (ptrdiff_t)x - (ptrdiff_t)y); REQ((pos[x] == pos[y]) == (x == y)); }
}
template <class T> static void same(D_<T> &l, std::deque<T> &m, Rng &r) {
  const D_<T> &c = l; ends(l, m);
  if (seq) for (size_t i = 0; i < m.size(); i++) { REQ(l[i] == m[i]); REQ(&c[i] == &l[i]); }
  if (its) { walk(l.begin(), l.end(), l, m, r); walk(c.begin(), c.end(), l, m, r); walk(c.cbegin(), c.cend(), l, m, r); typename D_<T>::const_iterator k(l.begin()); REQ(k == c.begin()); }
}
template <class T> static void push(D_<T> &l, std::deque<T> &m, bool back, int v) {
  T x = Mk<T>::mk(v); size_t n = m.size();
  if (v % 7 == 3 && n) { size_t j = (size_t)v * 977 % n; if (back) { l.push_back(l[j]); m.push_back(T(m[j])); } else { l.push_front(l[j]); m.push_front(T(m[j])); } }
  else if (v & 1) { if (back) l.push_back(x); else l.push_front(x); REQ(x == Mk<T>::mk(v)); if (back) m.push_back(x); else m.push_front(x); }
  else { if (back) l.push_back(Mk<T>::mk(v)); else l.push_front(Mk<T>::mk(v)); if (back) m.push_back(x); else m.push_front(x); }
}
template <class T> static void deques(const char *nm, int cases, int steps, int big) {
  for (int k = 0; k < cases; k++) {
    Rng r(seed() * 7919 + k * 31 + big); long live0 = Trk::live, mem0 = L.live; g_cases++; g_hist = nm; g_hist += ": ";
    { std::vector<std::unique_ptr<D_<T>>> ls; std::vector<std::deque<T>> ms(2); for (int i = 0; i < 2; i++) ls.emplace_back(new D_<T>);
      int bias = r.below(4);
      for (int s = 0; s < steps; s++) {
        int w = r.below(5) == 0; D_<T> &l = *ls[w]; std::deque<T> &m = ms[w]; size_t n = m.size(), cnt; static const int B[] = {1, 2, 3, 511, 512, 513, 1023, 1024, 1025, 1536};
        switch (r.below(4)) { case 0: cnt = 1; break; case 1: cnt = r.below(10); break; case 2: cnt = big ? B[r.below(10)] : r.below(20); break; default: cnt = big ? r.below(1400) : r.below(6); }
        int op = r.below(24); if (op < 16) { op &= 3; if (r.below(3) == 0) op = (bias & 1 ? 0 : 1) + (s > steps / 2 ? (bias & 2 ? 2 : 0) : 0); }
        switch (op) {
        case 0: case 1: say(op ? "d%ld.push_front x%ld" : "d%ld.push_back x%ld", w, cnt); for (size_t i = 0; i < cnt; i++) { push(l, m, !op, (int)r.below(1000)); ends(l, m); } break;
        case 2: case 3: if (r.below(3) == 0) cnt = n; else if (r.below(4) == 0) cnt = n + 2; say(op == 2 ? "d%ld.pop_back x%ld" : "d%ld.pop_front x%ld", w, cnt);
          for (size_t i = 0; i < cnt; i++) { if (op == 2) { l.pop_back(); if (!m.empty()) m.pop_back(); } else { l.pop_front(); if (!m.empty()) m.pop_front(); } ends(l, m); } break;
        case 16: if (r.below(2)) { say("d%ld.clear", w); l.clear(); m.clear(); } break;
        case 17: { say("d%ld = d%ld", w, 1 - w); REQ(&(l = *ls[1 - w]) == &l); m = ms[1 - w]; break; }
        case 18: { say("d%ld = itself", w); REQ(&(l = (const D_<T>&)l) == &l); break; }
        case 19: { say("d%ld copied", w); D_<T> c(l); same(c, m, r); if (n) { c[n / 2] = Mk<T>::mk(77); c.pop_back(); c.push_front(Mk<T>::mk(5)); } if (r.below(2)) ls[w].reset(new D_<T>(l)); break; }
        case 20: { say("d%ld = {..5}", w); D_<T> c{Mk<T>::mk(1), Mk<T>::mk(2), Mk<T>::mk(3), Mk<T>::mk(4), Mk<T>::mk(5)}; l = c; m.clear(); for (int i = 1; i < 6; i++) m.push_back(Mk<T>::mk(i)); break; }
        case 21: if (n) { size_t j = r.below(n); say("d%ld[%ld] = 42", w, j); l[j] = Mk<T>::mk(42); m[j] = Mk<T>::mk(42); l.front() = l.back(); m.front() = m.back(); } break;
        case 22: case 23: { size_t t = 1 + r.below(2500); if (!big) t = 1 + r.below(8); say("d%ld: %ld x (push_back, pop_front)", w, t); bool fw = r.below(2); for (size_t i = 0; i < t; i++) { push(l, m, fw, i); if (fw) { l.pop_front(); m.pop_front(); } else { l.pop_back(); m.pop_back(); } ends(l, m); } break; }
        }
        same(*ls[0], ms[0], r); same(*ls[1], ms[1], r);
      } }
    g_hist += "destroyed"; if (std::is_same_v<T, Trk>) REQ(Trk::live == live0); g_hist.clear(); g_hist.shrink_to_fit(); if (L.live != mem0) { g_hist = nm; say(": case %ld", k); fail("all storage is released", __FILE__, __LINE__); }
  }
}
template <class Q, class C, class T> static void queues(const char *nm, int cases, int steps, int big) {
  for (int k = 0; k < cases; k++) {
    Rng r(seed() * 104729 + k); long live0 = Trk::live; g_cases++; g_hist = nm; g_hist += ": ";
    { std::unique_ptr<Q> q(new Q); std::deque<T> m;
      auto chk = [&](Q &q) { const Q &c = q; REQ(q.size() == m.size()); REQ(c.size() == m.size()); REQ(c.empty() == m.empty()); if (!m.empty()) { REQ(q.front() == m.front()); REQ(q.back() == m.back()); REQ(c.front() == m.front()); REQ(c.back() == m.back()); REQ(&c.front() == &q.front()); REQ(&c.back() == &q.back()); } };
      for (int s = 0; s < steps; s++) {
        static const int B[] = {511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 2048}; size_t cnt = big ? r.below(3) ? r.below(1500) : B[r.below(10)] : r.below(5);
        switch (r.below(10)) {
        case 0: case 1: case 2: say("push x%ld", cnt); for (size_t i = 0; i < cnt; i++) { T x = Mk<T>::mk((int)r.below(1000)); q->push(x); m.push_back(x); chk(*q); } break;
        case 3: say("push(move) x%ld", cnt); for (size_t i = 0; i < cnt; i++) { int v = r.below(1000); q->push(Mk<T>::mk(v)); m.push_back(Mk<T>::mk(v)); chk(*q); } break;
        case 4: case 5: case 6: say("pop x%ld", cnt); for (size_t i = 0; i < cnt && !m.empty(); i++) { q->pop(); m.pop_front(); chk(*q); } break;
        case 7: say("pop all"); while (!m.empty()) { q->pop(); m.pop_front(); chk(*q); } break;
        case 8: { say("built from a container of %ld", cnt); C c; m.clear(); for (size_t i = 0; i < cnt; i++) { T x = Mk<T>::mk((int)i); c.push_back(x); m.push_back(x); } if (r.below(2)) q.reset(new Q(c)); else q.reset(new Q(static_cast<C&&>(c))); chk(*q); break; }
        case 9: { say("copied"); Q d(*q); auto mm = m; chk(d); while (!m.empty()) { d.pop(); m.pop_front(); chk(d); } m = mm; chk(*q); if (!m.empty()) { q->front() = Mk<T>::mk(9); m.front() = Mk<T>::mk(9); q->back() = Mk<T>::mk(8); m.back() = Mk<T>::mk(8); chk(*q); } q.reset(new Q(*q)); chk(*q); break; }
        } } say("drained"); while (!m.empty()) { q->pop(); m.pop_front(); chk(*q); } }
    if (std::is_same_v<T, Trk>) REQ(Trk::live == live0);
  }
}
template <class X, int... I> static void list_of(std::integer_sequence<int, I...>) { X x{I...}; REQ((int)x.size() == (int)sizeof...(I)); int i = 0; for (auto &e : x) { REQ(e == i); i++; } REQ(i == (int)sizeof...(I)); g_cases++; }
template <class X> static void lists() { g_hist = "braced list of n, n+1, ... elements"; list_of<X>(std::make_integer_sequence<int, 1>()); list_of<X>(std::make_integer_sequence<int, 2>()); list_of<X>(std::make_integer_sequence<int, 7>()); list_of<X>(std::make_integer_sequence<int, 8>()); list_of<X>(std::make_integer_sequence<int, 9>()); list_of<X>(std::make_integer_sequence<int, 17>()); list_of<X>(std::make_integer_sequence<int, 33>()); list_of<X>(std::make_integer_sequence<int, 65>()); list_of<X>(std::make_integer_sequence<int, 128>()); list_of<X>(std::make_integer_sequence<int, 257>()); list_of<X>(std::make_integer_sequence<int, 1000>()); list_of<X>(std::make_integer_sequence<int, 2050>()); }
int main(int c, char **v) {
  if (c < 2 || !strcmp(v[1], "C05")) { lists<cest::deque<int>>(); lists<cest::deque<long>>(); std::string().swap(g_hist); }
  ledger_on = true; std::string p = c > 1 ? v[1] : ""; int q = thorough() ? 120 : 12;
  seq = p != "C06"; its = p != "C05";
  if (p != "C13") {
    deques<int>("deque<int>", 10 * q, 14, 1); deques<Trk>("deque<Trk>", 60 * q, 30, 0); deques<Trk>("deque<Trk>", 14 * q, 16, 1); deques<std::string>("deque<string>", 4 * q, 12, 1); deques<Big>("deque<Big>", 4 * q, 12, 1); deques<char>("deque<char>", 4 * q, 14, 1);
    Rng r(3); for (int o = 0; o < 3; o++) { g_hist = "70000 elements"; D_<int> l; std::deque<int> m; for (int i = 0; i < 70000; i++) { bool b = o == 0 ? true : o == 1 ? false : (i / 1500) & 1; if (b) { l.push_back(i); m.push_back(i); } else { l.push_front(i); m.push_front(i); } } same(l, m, r); l.clear(); m.clear(); same(l, m, r); }
  }
  if (p != "C05" && p != "C06") {
    for (int n = 0; n < 2600; n++) { g_hist = "queue<int>: "; say("built from a container of %ld", n); cest::deque<int> d; for (int i = 0; i < n; i++) d.push_back(i); cest::queue<int> x(d), y(static_cast<cest::deque<int>&&>(d)), z(x); REQ(x.size() == (size_t)n); REQ(y.size() == (size_t)n); REQ(z.size() == (size_t)n); for (int i = 0; i < n; i++) { REQ(x.front() == i); REQ(y.front() == i); REQ(z.front() == i); REQ(x.back() == n - 1); x.pop(); y.pop(); z.pop(); } REQ(x.empty()); REQ(y.empty()); REQ(z.empty()); g_cases++; }
    queues<cest::queue<Trk>, cest::deque<Trk>, Trk>("queue<Trk>", 100 * q, 20, 0); queues<cest::queue<Trk>, cest::deque<Trk>, Trk>("queue<Trk>", 12 * q, 16, 1); queues<cest::queue<std::string>, cest::deque<std::string>, std::string>("queue<string>", 4 * q, 16, 1); queues<cest::queue<int>, cest::deque<int>, int>("queue<int>", 6 * q, 30, 1);
    queues<cest::queue<Trk, cest::list<Trk>>, cest::list<Trk>, Trk>("queue<Trk, list>", 60 * q, 20, 0); queues<cest::queue<int, std::deque<int>>, std::deque<int>, int>("queue<int, std::deque>", 6 * q, 20, 1);
  }
  ledger_on = false; printf("PASS %ld cases\n", g_cases);
}
