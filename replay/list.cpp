// C07, C08: cest::list and cest::forward_list against std::list / std::forward_list.
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include "common.hpp"
using namespace vp;
template <class T> struct Mk { static T mk(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string mk(int v) { return std::string(v % 5 * 9, 'a' + v % 26) + std::to_string(v); } };
struct Big { double d[20]; Big(int v = 0) { for (int i = 0; i < 20; i++) d[i] = v + i; } bool operator==(const Big &o) const { return !memcmp(d, o.d, sizeof d); } };
template <class T> using L_ = cest::list<T>; template <class T> using F_ = cest::forward_list<T>;
template <class T> static void same(L_<T> &l, std::list<T> &m) {
  const L_<T> &c = l; REQ(l.size() == m.size()); REQ(c.size() == m.size()); REQ(l.empty() == m.empty());
  auto it = l.begin(); auto ci = c.begin(); auto cc = c.cbegin(); size_t n = 0;
  for (auto &x : m) { REQ(!(it == l.end())); REQ(!(ci == c.end())); REQ(!(cc == c.cend())); REQ(*it == x); REQ(*ci == x); REQ(*cc == x); REQ(it.operator->() == &*it); REQ(ci.operator->() == &*it);
    auto j = it, k = it; REQ(j++ == k); auto j2 = j; REQ(j2-- == j); REQ(j2 == k); auto q = ci; auto q0 = ci; REQ(q++ == q0); REQ(q-- == typename L_<T>::const_iterator(j)); REQ(q == q0);
    auto &rr = ++it; REQ(&rr == &it); ++ci; ++cc; REQ(it == j); REQ(++n <= m.size()); }
  REQ(it == l.end()); REQ(ci == c.end()); REQ(cc == c.cend()); auto b = l.end(); auto cb = c.end(); n = 0;
  for (auto r = m.rbegin(); r != m.rend(); ++r) { auto &x = --b; REQ(&x == &b); --cb; REQ(*b == *r); REQ(*cb == *r); REQ(++n <= m.size()); }
  REQ(b == l.begin()); REQ(cb == c.begin());
  if (!m.empty()) { REQ(l.front() == m.front()); REQ(l.back() == m.back()); REQ(c.front() == m.front()); REQ(c.back() == m.back()); REQ(&l.front() == &*l.begin()); }
}
template <class T> static void lists(const char *nm, int cases, int steps) {
  for (int k = 0; k < cases; k++) {
    Rng r(seed() * 7919 + k); long live0 = Trk::live, mem0 = L.live; g_cases++; g_hist = nm; g_hist += ": ";
    { std::vector<std::unique_ptr<L_<T>>> ls; std::vector<std::list<T>> ms(2); for (int i = 0; i < 2; i++) ls.emplace_back(new L_<T>);
      // remembered positions: iterator and address of some element; every other element stays where it is
      for (int s = 0; s < steps; s++) {
        int w = r.below(2), v = r.below(100); L_<T> &l = *ls[w]; std::list<T> &m = ms[w]; size_t n = m.size(), pos = r.below(n + 1);
        auto it = l.begin(); auto mi = m.begin(); for (size_t i = 0; i < pos; i++) { ++it; ++mi; }
        std::vector<const T*> at; for (auto i = l.begin(); !(i == l.end()); ++i) at.push_back(&*i);
        size_t ins = -1, del = -1;
        switch (r.below(20)) {
        case 0: case 1: { say("l%ld.push_back(%ld)", w, v); T x = Mk<T>::mk(v); l.push_back(x); REQ(x == Mk<T>::mk(v)); m.push_back(x); ins = n; break; }
        case 2: say("l%ld.push_back(move %ld)", w, v); l.push_back(Mk<T>::mk(v)); m.push_back(Mk<T>::mk(v)); ins = n; break;
        case 3: { say("l%ld.push_front(%ld)", w, v); T x = Mk<T>::mk(v); l.push_front(x); m.push_front(x); ins = 0; break; }
        case 4: say("l%ld.push_front(move %ld)", w, v); l.push_front(Mk<T>::mk(v)); m.push_front(Mk<T>::mk(v)); ins = 0; break;
        case 5: case 6: { say("l%ld.insert(%ld)", w, pos); T x = Mk<T>::mk(v); auto ri = l.insert(it, x); m.insert(mi, x); REQ(*ri == x); ins = pos; auto q = l.begin(); for (size_t i = 0; i < pos; i++) ++q; REQ(q == ri); ++ri; REQ(ri == it); break; }
        case 7: { say("l%ld.insert(move, %ld)", w, pos); auto ri = l.insert(it, Mk<T>::mk(v)); m.insert(mi, Mk<T>::mk(v)); ins = pos; auto q = l.begin(); for (size_t i = 0; i < pos; i++) ++q; REQ(q == ri); break; }
        case 8: { say("l%ld.emplace(%ld)", w, pos); auto ri = l.emplace(it, Mk<T>::mk(v)); m.insert(mi, Mk<T>::mk(v)); ins = pos; auto q = l.begin(); for (size_t i = 0; i < pos; i++) ++q; REQ(q == ri); break; }
        case 9: { say("l%ld.emplace_front(%ld)", w, v); T &x = l.emplace_front(Mk<T>::mk(v)); m.push_front(Mk<T>::mk(v)); REQ(&x == &l.front()); ins = 0; break; }
        case 10: { say("l%ld.emplace_back(%ld)", w, v); T &x = l.emplace_back(Mk<T>::mk(v)); m.push_back(Mk<T>::mk(v)); REQ(&x == &l.back()); ins = n; break; }
        case 11: case 12: if (pos < n) { say("l%ld.erase(%ld)", w, pos); auto nx = it; ++nx; auto ri = l.erase(it); m.erase(mi); REQ(ri == nx); del = pos; } break;
        case 13: if (n) { say("l%ld.pop_back", w); l.pop_back(); m.pop_back(); del = n - 1; } break;
        case 14: if (n) { say("l%ld.pop_front", w); l.pop_front(); m.pop_front(); del = 0; } break;
        case 15: if (r.below(4) == 0) { say("l%ld.clear", w); l.clear(); m.clear(); at.clear(); } break;
        case 16: { say("l%ld = l%ld", w, 1 - w); REQ(&(l = *ls[1 - w]) == &l); m = ms[1 - w]; at.clear(); for (auto i = l.begin(); !(i == l.end()); ++i) at.push_back(&*i); break; }
        case 17: { say("l%ld = itself", w); l = (const L_<T>&)l; at.clear(); for (auto i = l.begin(); !(i == l.end()); ++i) at.push_back(&*i); break; }
        case 18: { say("l%ld copied", w); L_<T> c(l); same(c, m); if (n) { *c.begin() = Mk<T>::mk(77); c.pop_back(); } same(l, m); ls[w].reset(new L_<T>(l)); at.clear(); for (auto i = ls[w]->begin(); !(i == ls[w]->end()); ++i) at.push_back(&*i); break; }
        case 19: if (n) { say("l%ld: own front pushed back", w); l.push_back(l.front()); m.push_back(T(m.front())); ins = n; say("and inserted"); l.insert(l.begin(), l.back()); m.push_front(T(m.back())); at.insert(at.begin(), &*l.begin()); ins++; } break;
        }
        same(*ls[0], ms[0]); same(*ls[1], ms[1]);
        if (ins != (size_t)-1) at.insert(at.begin() + ins, nullptr); if (del != (size_t)-1) at.erase(at.begin() + del);
        size_t j = 0; for (auto i = ls[w]->begin(); !(i == ls[w]->end()); ++i, ++j) REQ(j < at.size() && (!at[j] || at[j] == &*i));
      } }
    if (std::is_same_v<T, Trk>) REQ(Trk::live == live0); g_hist.clear(); g_hist.shrink_to_fit(); if (L.live != mem0) { g_hist = nm; say(": case %ld", k); fail("every node is released", __FILE__, __LINE__); }
  }
}
template <class T> static void same(F_<T> &l, std::forward_list<T> &m) {
  const F_<T> &c = l; REQ(l.empty() == m.empty()); auto it = l.begin(); auto ci = c.begin(); auto cc = c.cbegin(); auto bb = l.before_begin(); auto b2 = bb; REQ(b2++ == bb); REQ(b2 == it);
  for (auto &x : m) { REQ(!(it == l.end())); REQ(!(ci == c.end())); REQ(!(cc == c.cend())); REQ(*it == x); REQ(*ci == x); REQ(*cc == x); REQ(it.operator->() == &*it); REQ(ci.operator->() == &*it); auto j = it, k = it; REQ(j++ == k); auto q = ci, q0 = ci; REQ(q++ == q0); auto &rr = ++it; REQ(&rr == &it); ++ci; ++cc; REQ(it == j); REQ(q == ci); }
  REQ(it == l.end()); REQ(ci == c.end()); REQ(cc == c.cend()); if (!m.empty()) { REQ(l.front() == m.front()); REQ(c.front() == m.front()); REQ(&l.front() == &*l.begin()); }
}
template <class T> static void flists(const char *nm, int cases, int steps) {
  for (int k = 0; k < cases; k++) {
    Rng r(seed() * 104729 + k); long live0 = Trk::live, mem0 = L.live; g_cases++; g_hist = nm; g_hist += ": ";
    { std::vector<std::unique_ptr<F_<T>>> ls; std::vector<std::forward_list<T>> ms(2); for (int i = 0; i < 2; i++) ls.emplace_back(new F_<T>);
      for (int s = 0; s < steps; s++) {
        int w = r.below(2), v = r.below(100); F_<T> &l = *ls[w]; std::forward_list<T> &m = ms[w]; size_t n = std::distance(m.begin(), m.end()), pos = r.below(n + 1), q2 = pos + r.below(n + 1 - pos);
        auto it = l.before_begin(); auto mi = m.before_begin(); for (size_t i = 0; i < pos; i++) { ++it; ++mi; } auto i2 = it; auto m2 = mi; for (size_t i = pos; i < q2 + 1 && m2 != m.end(); i++) { ++i2; ++m2; }
        std::vector<const T*> at; for (auto i = l.begin(); !(i == l.end()); ++i) at.push_back(&*i);
        size_t ins = -1, del = -1, nd = 1; bool re = false;
        switch (r.below(14)) {
        case 0: case 1: { say("f%ld.push_front(%ld)", w, v); T x = Mk<T>::mk(v); l.push_front(x); REQ(x == Mk<T>::mk(v)); m.push_front(x); ins = 0; break; }
        case 2: say("f%ld.push_front(move %ld)", w, v); l.push_front(Mk<T>::mk(v)); m.push_front(Mk<T>::mk(v)); ins = 0; break;
        case 3: case 4: { say("f%ld.insert_after(%ld)", w, pos); T x = Mk<T>::mk(v); auto ri = l.insert_after(it, x); m.insert_after(mi, x); REQ(*ri == x); auto t = it; ++t; REQ(t == ri); ins = pos; break; }
        case 5: { say("f%ld.insert_after(move, %ld)", w, pos); auto ri = l.insert_after(it, Mk<T>::mk(v)); m.insert_after(mi, Mk<T>::mk(v)); auto t = it; ++t; REQ(t == ri); ins = pos; break; }
        case 6: case 7: if (pos < n) { say("f%ld.erase_after(%ld)", w, pos); auto nx = it; ++nx; ++nx; auto ri = l.erase_after(it); m.erase_after(mi); REQ(ri == nx); auto t = it; ++t; REQ(t == ri); del = pos; } break;
        case 8: { say("f%ld.erase_after(%ld..", w, pos); say("%ld)", q2); auto ri = l.erase_after(it, i2); m.erase_after(mi, m2); REQ(ri == i2); auto t = it; ++t; REQ(t == ri); del = pos; nd = std::min(q2, n) - pos; break; }
        case 9: if (n) { say("f%ld.pop_front", w); l.pop_front(); m.pop_front(); del = 0; } break;
        case 10: if (r.below(4) == 0) { say("f%ld.clear", w); l.clear(); m.clear(); re = true; } break;
        case 11: { int o = r.below(4) ? 1 - w : w; say("f%ld = f%ld", w, o); REQ(&(l = *ls[o]) == &l); m = ms[o]; re = true; break; }
        case 12: { int o = r.below(4) ? 1 - w : w; say("f%ld.swap(f%ld)", w, o); std::vector<const T*> b; for (auto i = ls[o]->begin(); !(i == ls[o]->end()); ++i) b.push_back(&*i); l.swap(*ls[o]); m.swap(ms[o]); if (o != w) { size_t j = 0; for (auto i = ls[o]->begin(); !(i == ls[o]->end()); ++i, ++j) REQ(at[j] == &*i); at = b; } break; }
        case 13: { say("f%ld copied", w); F_<T> c(l); same(c, m); if (n) { *c.begin() = Mk<T>::mk(77); c.pop_front(); } same(l, m); ls[w].reset(new F_<T>(l)); re = true; break; }
        }
        same(*ls[0], ms[0]); same(*ls[1], ms[1]); if (re) continue;
        if (ins != (size_t)-1) at.insert(at.begin() + ins, nullptr); if (del != (size_t)-1) at.erase(at.begin() + del, at.begin() + del + nd);
        size_t j = 0; for (auto i = ls[w]->begin(); !(i == ls[w]->end()); ++i, ++j) REQ(j < at.size() && (!at[j] || at[j] == &*i));
      } }
    if (std::is_same_v<T, Trk>) REQ(Trk::live == live0); g_hist.clear(); g_hist.shrink_to_fit(); if (L.live != mem0) { g_hist = nm; say(": case %ld", k); fail("every node is released", __FILE__, __LINE__); }
  }
}
int main(int c, char **v) {
  ledger_on = true; std::string p = c > 1 ? v[1] : ""; int q = thorough() ? 20 : 1;
  if (p != "C08") { lists<Trk>("list<Trk>", 600 * q, 14); lists<Trk>("list<Trk>", 20 * q, 250); lists<int>("list<int>", 300 * q, 20); lists<std::string>("list<string>", 150 * q, 20); lists<Big>("list<Big>", 60 * q, 30);
    g_hist = "list of 70000"; L_<int> l; std::list<int> m; for (int i = 0; i < 70000; i++) { if (i & 1) { l.push_back(i); m.push_back(i); } else { l.push_front(i); m.push_front(i); } } same(l, m); L_<int> d(l); same(d, m); l.clear(); m.clear(); same(l, m); }
  if (p != "C07") { flists<Trk>("forward_list<Trk>", 600 * q, 14); flists<Trk>("forward_list<Trk>", 20 * q, 250); flists<int>("forward_list<int>", 300 * q, 20); flists<std::string>("forward_list<string>", 150 * q, 20); flists<Big>("forward_list<Big>", 60 * q, 30);
    g_hist = "forward_list of 70000"; F_<int> l; std::forward_list<int> m; for (int i = 0; i < 70000; i++) { l.push_front(i); m.push_front(i); } same(l, m); F_<int> d(l); same(d, m); l.clear(); m.clear(); same(l, m); }
  ledger_on = false; printf("PASS %ld cases\n", g_cases);
}
