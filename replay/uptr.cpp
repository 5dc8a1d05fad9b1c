// C14: cest::unique_ptr histories with lifetime-checked objects and an allocation ledger.
#include <cest/memory.hpp>
#include "common.hpp"
using namespace vp;
struct Re; static cest::unique_ptr<Re> *g_owner; static int g_re; struct Re { ~Re() { if (++g_re > 1) fail("object deleted while still owned, and again", __FILE__, __LINE__); REQ(g_owner->get() != this); g_owner->reset(); } };
template <class T> struct Cnt { static inline int made = 0, gone = 0; };
struct Base { static inline int live = 0; long v; Base(long v) : v(v) { live++; } virtual ~Base() { live--; } };
struct Der : Base { static inline int dead = 0; long w[9]; Der(long v) : Base(v) {} ~Der() { dead++; } };
template <class T> struct Sim {
  using U = cest::unique_ptr<T>;
  alignas(U) char raw[3][sizeof(U)]; T *own[3]; int val[3]; int next = 1; T *loose = nullptr; int lv = 0;
  U &u(int i) { return *(U*)raw[i]; }
  Sim() { for (int i = 0; i < 3; i++) { new (raw[i]) U(); own[i] = nullptr; val[i] = 0; } }
  void same() {
    long n = loose != nullptr;
    for (int i = 0; i < 3; i++) { const U &c = u(i); REQ(c.get() == own[i]); REQ((bool)c == (own[i] != nullptr)); REQ(c.operator->() == own[i]);
      if (own[i]) { n++; REQ(*c == T(val[i])); REQ(*u(i) == T(val[i])); REQ(&*u(i) == own[i] && &*c == own[i]); } 
      for (int j = 0; j < 3; j++) { const U &d = u(j); REQ((c == d) == (own[i] == own[j])); REQ((c != d) == (own[i] != own[j])); REQ((c < d) == (own[i] < own[j])); REQ((c <= d) == (own[i] <= own[j])); REQ((c > d) == (own[i] > own[j])); REQ((c >= d) == (own[i] >= own[j])); } }
    if constexpr (std::is_same_v<T, Trk>) REQ(Trk::live == n);
    REQ(L.live == n);
  }
  void op(int k, unsigned r) {
    int i = r % 3, j = r / 3 % 3;
    switch (k) {
    case 0: say("u%ld.reset(new %ld)", i, next); own[i] = new T(next); val[i] = next++; u(i).reset(own[i]); break;
    case 1: say("u%ld.reset()", i); u(i).reset(); own[i] = nullptr; break;
    case 2: say("u%ld = move(u%ld)", i, j); { T *fo = own[i]; int fv = val[i]; REQ(&(u(i) = std::move(u(j))) == &u(i)); if (i != j) { own[i] = own[j]; val[i] = val[j];
        REQ(u(j).get() == nullptr || u(j).get() == fo); own[j] = u(j).get(); val[j] = fv; } } break;
    case 3: if (loose) return; say("release u%ld", i); loose = own[i]; lv = val[i]; REQ(u(i).release() == own[i]); own[i] = nullptr; if (loose) REQ(*loose == T(lv)); break;
    case 4: if (!loose) return; say("u%ld.reset(released)", i); u(i).reset(loose); own[i] = loose; val[i] = lv; loose = nullptr; break;
    case 5: say("u%ld destroyed, rebuilt from move(u%ld)", i, j); u(i).~U(); own[i] = nullptr; if (i == j) { new (raw[i]) U(); break; } new (raw[i]) U(std::move(u(j))); own[i] = own[j]; val[i] = val[j]; own[j] = nullptr; break;
    case 6: say("u%ld destroyed, rebuilt with make_unique(%ld)", i, next); u(i).~U(); new (raw[i]) U(cest::make_unique<T>(T(next))); own[i] = u(i).get(); REQ(own[i]); val[i] = next++; break;
    case 7: say("u%ld = make_unique()", i); { u(i) = cest::make_unique<T>(); own[i] = u(i).get(); REQ(own[i]); val[i] = 0; } break;
    case 8: say("u%ld destroyed, rebuilt from new %ld", i, next); u(i).~U(); own[i] = new T(next); val[i] = next++; new (raw[i]) U(own[i]); break;
    case 9: say("u%ld.reset(nullptr)", i); u(i).reset(nullptr); own[i] = nullptr; break;
    case 10: say("u%ld moved through a local", i); { U t(std::move(u(i))); REQ(t.get() == own[i]); REQ(!u(i)); U s; s = std::move(t); REQ(!t); u(i) = std::move(s); } break;
    }
    same();
  }
  void end() { for (int i = 0; i < 3; i++) u(i).~U(); delete loose; g_hist += "end"; if constexpr (std::is_same_v<T, Trk>) REQ(Trk::live == 0); REQ(L.live == 0); }
};
template <class T> void all() {
  const int K = 11;
  for (int a = 0; a < K * 9; a++) for (int b = 0; b < K * 9; b++) { g_hist.clear(); ledger_on = false; g_cases++; { ledger_on = false; std::string(); }
    g_hist.reserve(4000); ledger_on = true; { Sim<T> s; s.op(0, 0); s.op(a / 9, a % 9); s.op(b / 9, b % 9); s.end(); } ledger_on = false; }
  Rng r(seed()); int N = thorough() ? 40000 : 4000;
  for (int t = 0; t < N; t++) { g_hist.clear(); g_hist.reserve(8000); ledger_on = true; g_cases++; { Sim<T> s; int len = 1 + r.below(25); for (int q = 0; q < len; q++) s.op(r.below(K), r.below(9)); s.end(); } ledger_on = false; }
}
int main() {
  all<Trk>(); all<int>(); all<double>();
  { g_hist = "conversion to base"; { cest::unique_ptr<Der> d(new Der(7)); Der *p = d.get(); cest::unique_ptr<Base> b(std::move(d)); REQ(!d && b.get() == p && b->v == 7 && Base::live == 1);
      cest::unique_ptr<Base> c; c = std::move(b); REQ(!b || b.get() != p); REQ(c.get() == p); c.reset(new Base(8)); REQ(Base::live == 1 && Der::dead == 1); c = cest::make_unique<Der>(9); REQ(c->v == 9); } REQ(Base::live == 0 && Der::dead == 2); }
  { g_hist = "null pointer of derived type"; cest::unique_ptr<Der> d; cest::unique_ptr<Base> b(std::move(d)); REQ(!b && !d); }
  { g_hist = "owned object that owns"; struct N { Trk t{3}; cest::unique_ptr<N> next; }; { cest::unique_ptr<N> h(new N); h->next.reset(new N); h->next->next.reset(new N); REQ(Trk::live == 3); h = cest::unique_ptr<N>(h->next.release()); REQ(Trk::live == 2); h.reset(h->next.release()); REQ(Trk::live == 1); } REQ(Trk::live == 0); }
  { g_hist = "const object"; static int gone = 0; struct C { int x; ~C() { gone++; } }; { cest::unique_ptr<const C> p(new C{4}); REQ(p->x == 4); p.reset(); REQ(gone == 1); } REQ(gone == 1); }
  { g_hist = "destructor that looks at its owner"; cest::unique_ptr<Re> u(new Re); g_owner = &u; u.reset(); REQ(g_re == 1 && !u); }
  printf("PASS %ld cases\n", g_cases);
}
