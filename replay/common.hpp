// Shared parts of the replay drivers: they run the real code on concrete inputs and compare with a model.
// Exit 1 with a line "FAIL ..." naming the failing input; memory errors are reported by ASan/UBSan.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <list>
#include <forward_list>
#include <algorithm>
#include <stdexcept>
#include <initializer_list>
#include <memory>
namespace vp {
inline std::string g_hist;              // the input so far
inline long g_cases = 0;
[[noreturn]] inline void fail(const char *what, const char *file, int line) {
  printf("FAIL %s (%s:%d) input: %s\n", what, file, line, g_hist.c_str()); fflush(stdout); _Exit(1);
}
#define REQ(c) do { if (!(c)) vp::fail(#c, __FILE__, __LINE__); } while (0)
struct Rng { uint64_t s; explicit Rng(uint64_t x) : s(x * 2654435761u + 88172645463325252ull) {}
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
  uint64_t below(uint64_t n) { return next() % n; } };
inline uint64_t seed() { const char *e = getenv("VERIF_SEED"); return e ? strtoull(e, 0, 10) : 1; }
inline bool thorough() { const char *e = getenv("VERIF_TIER"); return e && !strcmp(e, "thorough"); }
inline void say(const char *f, long a = 0, long b = 0) { char t[120]; snprintf(t, sizeof t, f, a, b); g_hist += t; g_hist += "; "; }
// allocation ledger
struct Ledger { static constexpr size_t N = 1 << 19; void *p[N]; size_t n[N]; long live = 0; };
inline Ledger L;
inline long fail_in = -1;            // the allocation after that many more fails
inline bool ledger_on = false, check_release = true;
inline size_t slot(void *q) { return ((uintptr_t)q >> 4) * 11400714819323198485ull >> 45; }
inline void add(void *q, size_t n) { size_t i = slot(q); while (L.p[i] && L.p[i] != (void*)1) i = (i + 1) % Ledger::N; L.p[i] = q; L.n[i] = n; L.live++; }
inline void del(void *q, size_t n, bool sized) {
  size_t i = slot(q), c = 0;
  while (L.p[i] != q) { if (!L.p[i] || ++c > Ledger::N) { fail("released storage was never obtained or released twice", __FILE__, __LINE__); } i = (i + 1) % Ledger::N; }
  if (check_release && sized && L.n[i] != n) fail("storage released with a different size", __FILE__, __LINE__);
  L.p[i] = (void*)1; L.live--;
}
// lifetime-checked element
struct Trk {
  static inline long live = 0; static inline long moves = 0;
  uint32_t magic; int v;
  void on() { magic = 0xA11CE; live++; }
  void chk() const { if (magic != 0xA11CE) fail("element used while not alive", __FILE__, __LINE__); }
  Trk() : v(0) { on(); }
  Trk(int x) : v(x) { on(); }
  Trk(const Trk &o) : v(o.v) { o.chk(); on(); }
  Trk(Trk &&o) noexcept : v(o.v) { o.chk(); o.v = -1; on(); moves++; }
  Trk &operator=(const Trk &o) { chk(); o.chk(); v = o.v; return *this; }
  Trk &operator=(Trk &&o) noexcept { chk(); o.chk(); v = o.v; if (this != &o) o.v = -1; return *this; }
  ~Trk() { chk(); magic = 0xDEAD; live--; }
  bool operator==(const Trk &o) const { chk(); o.chk(); return v == o.v; }
  bool operator!=(const Trk &o) const { return !(*this == o); }
  bool operator<(const Trk &o) const { chk(); o.chk(); return v < o.v; }
  bool operator>(const Trk &o) const { return o < *this; }
};
}
void *operator new(size_t n) { if (vp::fail_in >= 0 && vp::fail_in-- == 0) throw std::bad_alloc(); void *q = malloc(n ? n : 1); if (!q) abort(); if (vp::ledger_on) vp::add(q, n); return q; }
void *operator new[](size_t n) { return operator new(n); }
static void vp_del(void *q, size_t n, bool s);
void operator delete(void *q) noexcept { vp_del(q, 0, false); }
void operator delete[](void *q) noexcept { vp_del(q, 0, false); }
void operator delete(void *q, size_t n) noexcept { vp_del(q, n, true); }
void operator delete[](void *q, size_t n) noexcept { vp_del(q, n, true); }
static void vp_del(void *q, size_t n, bool s) { if (!q) return; if (vp::ledger_on) vp::del(q, n, s); free(q); }
