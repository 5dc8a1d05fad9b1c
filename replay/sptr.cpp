// C15: cest::shared_ptr histories: counts, deletions and bookkeeping against a model.
#include <cest/memory.hpp>
#include "common.hpp"
using namespace vp;
static int g_del[4096]; static void *g_delp[4096];
struct Del { int id; void operator()(Trk *p) const { g_del[id]++; g_delp[id] = p; delete p; } };
static int fn_calls; static void fndel(Trk *p) { fn_calls++; delete p; }
struct Sim {
  using S = cest::shared_ptr<Trk>; static constexpr int N = 4;
  alignas(S) char raw[N][sizeof(S)]; int grp[N]; Trk *ptr[N];           // group of each owner (0: empty)
  int gval[4096], gcnt[4096]; Trk *gp[4096]; char gk[4096]; int ng = 1, next = 1;
  S &s(int i) { return *(S*)raw[i]; }
  Sim() { for (int i = 0; i < N; i++) { new (raw[i]) S(); grp[i] = 0; ptr[i] = nullptr; } }
  void drop(int g) { if (g && !--gcnt[g]) { if (gk[g] == 1) { REQ(g_del[g] == 1); REQ(g_delp[g] == gp[g]); } } else if (g && gk[g] == 1) REQ(g_del[g] == 0); }
  void same() {
    long objs = 0, blocks = 0;
    for (int g = 1; g < ng; g++) if (gcnt[g]) { objs += gp[g] != nullptr; blocks += 1 + (gp[g] != nullptr); if (gk[g] == 1) REQ(g_del[g] == 0); }
    REQ(Trk::live == objs); REQ(L.live == blocks);
    for (int i = 0; i < N; i++) { const S &c = s(i); REQ(c.use_count() == (grp[i] ? gcnt[grp[i]] : 0)); REQ(c.get() == ptr[i]); REQ(c.operator->() == ptr[i]); REQ((bool)c == (ptr[i] != nullptr)); if (ptr[i]) { REQ(&*c == ptr[i]); if (ptr[i] == gp[grp[i]]) REQ(c->v == gval[grp[i]]); }
      if (grp[i] && gk[grp[i]] == 1) { auto *d = cest::impl::get_deleter<Del>(c); REQ(d && d->id == grp[i]); } else if (grp[i]) REQ(!cest::impl::get_deleter<Del>(c)); }
  }
  int mk(int k) { int g = ng++; gval[g] = next; gk[g] = k; g_del[g] = 0; gcnt[g] = 1; gp[g] = k == 3 ? nullptr : new Trk(next); next++; return g; }
  void op(int k, unsigned r) {
    int i = r % N, j = r / N % N; r /= 16;
    switch (k) {
    case 0: { int g = mk(0); say("s%ld = shared_ptr(new %ld)", i, gval[g]); s(i) = S(gp[g]); drop(grp[i]); grp[i] = g; ptr[i] = gp[g]; } break;
    case 1: { int g = mk(1); say("s%ld = shared_ptr(new %ld, deleter)", i, gval[g]); s(i) = S(gp[g], Del{g}); drop(grp[i]); grp[i] = g; ptr[i] = gp[g]; } break;
    case 2: say("s%ld = s%ld", i, j); REQ(&(s(i) = s(j)) == &s(i)); { int o = grp[i]; grp[i] = grp[j]; ptr[i] = ptr[j]; if (grp[i]) gcnt[grp[i]]++; drop(o); } break;
    case 3: say("s%ld destroyed, rebuilt as copy of s%ld", i, j); s(i).~S(); drop(grp[i]); if (i == j) { new (raw[i]) S(nullptr); grp[i] = 0; ptr[i] = nullptr; } else { new (raw[i]) S((const S&)s(j)); grp[i] = grp[j]; ptr[i] = ptr[j]; if (grp[i]) gcnt[grp[i]]++; } break;
    case 4: say("s%ld = shared_ptr()", i); s(i) = S(); drop(grp[i]); grp[i] = 0; ptr[i] = nullptr; break;
    case 5: if (i == j) return; say("s%ld = alias of s%ld", i, j); { static Trk *none = (ledger_on = false, new Trk[3]); if (!ledger_on) { ledger_on = true; Trk::live -= 3; } Trk *part = r % 5 == 0 ? nullptr : r % 5 < 3 ? none + r % 3 : ptr[j]; s(i).~S(); drop(grp[i]); new (raw[i]) S((const S&)s(j), part); grp[i] = grp[j]; ptr[i] = part; if (grp[i]) gcnt[grp[i]]++; } break;
    case 6: say("copies of s%ld and of the copy", i); { S a(s(i)), b(a), c; c = b; long n = grp[i] ? gcnt[grp[i]] : 0; REQ(s(i).use_count() == (n ? n + 3 : 0)); a = S(); REQ(c.use_count() == (n ? n + 2 : 0)); b = c; c = c; REQ(b.use_count() == (n ? n + 2 : 0)); } break;
    case 7: { int g = mk(2); say("s%ld = shared_ptr(new %ld, function pointer)", i, gval[g]); s(i) = S(gp[g], &fndel); drop(grp[i]); grp[i] = g; ptr[i] = gp[g]; } break;
    case 8: { int g = mk(3); say("s%ld = shared_ptr((Trk*)0)", i); s(i) = S((Trk*)nullptr); drop(grp[i]); grp[i] = g; ptr[i] = nullptr; } break;
    case 9: say("s%ld = move(s%ld)", i, j); { int o = grp[i]; Trk *op = ptr[i]; s(i) = (S&&)s(j); grp[i] = grp[j]; ptr[i] = ptr[j]; if (i != j && grp[i]) { if (s(j).use_count() == 0) { grp[j] = 0; ptr[j] = nullptr; drop(o); } else { gcnt[grp[i]]++; drop(o); } } else if (i != j) drop(o); } break;
    }
    same();
  }
  void end() { for (int i = 0; i < N; i++) { s(i).~S(); drop(grp[i]); } g_hist += "end"; REQ(Trk::live == 0); REQ(L.live == 0); for (int g = 1; g < ng; g++) if (gk[g] == 1) REQ(g_del[g] == 1); }
};
struct Base { static inline int live = 0; long v; Base(long v) : v(v) { live++; } virtual ~Base() { live--; } };
struct Der : Base { static inline int dead = 0; long w[9]; Der(long v) : Base(v) {} ~Der() { dead++; } };
template <class T> void basic(const char *nm) {
  g_hist = nm; ledger_on = true;
  { using S = cest::shared_ptr<T>; T *p = new T(); S a(p); REQ(a.use_count() == 1 && a.get() == p); S b(a), c; REQ(a.use_count() == 2); c = b; REQ(c.use_count() == 3); { S d(new T()); d = a; REQ(d.use_count() == 4); } REQ(a.use_count() == 3); a = S(); b = S(); REQ(c.use_count() == 1 && c.get() == p); S e; S f(e); REQ(f.use_count() == 0 && !f); c = f; REQ(!c); }
  REQ(L.live == 0); ledger_on = false;
}
int main() {
  const int K = 10;
  for (int a = 0; a < K * 16; a++) for (int b = 0; b < K * 16; b++) { g_hist.clear(); g_hist.reserve(4000); ledger_on = true; g_cases++; { static Sim *s; alignas(Sim) static char m[sizeof(Sim)]; s = new (m) Sim; s->op(1, 0); s->op(a / 16, a % 16); s->op(b / 16, b % 16); s->end(); } ledger_on = false; }
  Rng r(seed()); int N = thorough() ? 30000 : 3000;
  for (int t = 0; t < N; t++) { g_hist.clear(); g_hist.reserve(9000); ledger_on = true; g_cases++; { alignas(Sim) static char m[sizeof(Sim)]; Sim *s = new (m) Sim; int len = 1 + r.below(t % 100 ? 25 : 100); for (int q = 0; q < len; q++) s->op(r.below(K), r.below(16000)); s->end(); } ledger_on = false; }
  basic<int>("int"); basic<double>("double"); basic<Trk>("Trk"); basic<std::string>("string"); basic<std::vector<int>>("vector");
  // many owners
  for (int n : {1, 2, 100, 127, 128, 255, 256, 257, 1000, 40000, 70000}) { g_hist = "many owners"; say(" %ld", n); static char *buf; using S = cest::shared_ptr<Trk>; S *v = (S*)malloc(sizeof(S) * n); ::new (&v[0]) S(new Trk(5)); for (int i = 1; i < n; i++) { ::new (&v[i]) S(v[i / 2]); } REQ(v[0].use_count() == n); REQ(Trk::live == 1);
    for (int i = 0; i < n; i++) { REQ(v[n - 1].use_count() == n - i); REQ(Trk::live == 1); v[i].~S(); } REQ(Trk::live == 0); free(v); }
  // arrays
  for (int n : {0, 1, 2, 3, 17, 300}) { g_hist = "array"; say(" of %ld", n); ledger_on = true; { using A = cest::shared_ptr<Trk[]>; Trk *p = new Trk[n]; A a(p); for (int i = 0; i < n; i++) { REQ(&a[i] == p + i); a[i].v = i; } A b(a), c; c = b; REQ(c.use_count() == 3 && c.get() == p); a = A(); b = A(); REQ(Trk::live == n); for (int i = 0; i < n; i++) REQ(c[i].v == i); c = c; REQ(c.use_count() == 1); A d; d = c; c = A(new Trk[2]); REQ(Trk::live == n + 2 && d.get() == p); d = c; REQ(Trk::live == 2); A e(nullptr); d = e; REQ(Trk::live == 2 && e.use_count() == 0); } REQ(Trk::live == 0); REQ(L.live == 0); ledger_on = false; }
  { g_hist = "array with deleter"; int called = 0; Trk *got = nullptr; { Trk *p = new Trk[3]; cest::shared_ptr<Trk[]> a(p, [&](Trk *q) { called++; got = q; delete[] q; }); auto b = a; REQ(called == 0); a = b; REQ(got == nullptr); } REQ(called == 1 && Trk::live == 0); }
  { g_hist = "lambda deleter with state"; int called = 0; { cest::shared_ptr<Trk> a(new Trk(1), [&called](Trk *q) { called++; delete q; }); { cest::shared_ptr<Trk> b(a); cest::shared_ptr<Trk> c; c = b; } REQ(called == 0); } REQ(called == 1 && Trk::live == 0); }
  { g_hist = "deleter of a null pointer"; int called = 0; { cest::shared_ptr<Trk> a((Trk*)nullptr, [&called](Trk *q) { called++; }); auto b = a; REQ(b.use_count() == 2 && !b); } REQ(called == 1); }
  { g_hist = "derived object"; { cest::shared_ptr<Base> b(new Der(7)); REQ(b->v == 7); cest::shared_ptr<Base> c(b); } REQ(Base::live == 0 && Der::dead == 1); }
  { g_hist = "assignment from inside the owned object"; struct Nd { Trk t{1}; cest::shared_ptr<Nd> next; }; { cest::shared_ptr<Nd> h(new Nd); h->next = cest::shared_ptr<Nd>(new Nd); h->next->next = cest::shared_ptr<Nd>(new Nd); REQ(Trk::live == 3); h = h->next; REQ(Trk::live == 2); h = h->next; REQ(Trk::live == 1 && h.use_count() == 1); } REQ(Trk::live == 0); }
  printf("PASS %ld cases\n", g_cases);
}
