// Wrappers under contract: each calls exactly one operation of the real cest::function.
#include <cest/functional.hpp>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); ~E(); char c; };
struct F { F(const F&); F(F&&) noexcept; ~F(); long operator()(int, E, const E&, const char*); char c; };
struct G { G(const G&); G(G&&) noexcept; ~G(); void operator()(E&, unsigned long); char c; };
struct H { H(const H&); H(H&&) noexcept; ~H(); E operator()(E&&, int); char c; };
using FF = cest::function<long(int, E, const E&, const char*)>;
using FG = cest::function<void(E&, unsigned long)>;
using FH = cest::function<E(E&&, int)>;
using FP = cest::function<long(int, long)>; using Pf = long (*)(int, long);
using IF = cest::impl_f<F, long, int, E, const E&, const char*>; using IG = cest::impl_f<G, void, E&, unsigned long>; using IH = cest::impl_f<H, E, E&&, int>; using IP = cest::impl_f<Pf, long, int, long>;
extern "C" {
extern const unsigned long FF_size = sizeof(FF), FF_p = __builtin_offsetof(FF, f_) + __builtin_offsetof(decltype(FF::f_), ptr_);
extern const unsigned long F_impl = sizeof(IF), F_off = __builtin_offsetof(IF, f_), G_impl = sizeof(IG), G_off = __builtin_offsetof(IG, f_), H_impl = sizeof(IH), H_off = __builtin_offsetof(IH, f_), P_impl = sizeof(IP), P_off = __builtin_offsetof(IP, f_);
long target(int, long); long (*volatile keep)(int, long) = &target;
#define OPS(X, N) \
void N##_ctor(F##X* f, X* x) { ::new (f) F##X(*x); } \
void N##_ctor_r(F##X* f, X* x) { ::new (f) F##X(std::move(*x)); } \
void N##_dtor(F##X* f) { f->~F##X(); } \
void N##_move(F##X* f, F##X* o) { ::new (f) F##X(std::move(*o)); } \
F##X* N##_assign(F##X* f, F##X* o) { return &(*f = std::move(*o)); }
OPS(F, f) OPS(G, g) OPS(H, h)
long f_call(FF* f, int i, E* e, const E* r, const char* p) { return (*f)(i, *e, *r, p); }
long f_call_r(FF* f, int i, E* e, const E* r, const char* p) { return (*f)(i, std::move(*e), *r, p); }
void g_call(FG* f, E* e, unsigned long n) { (*f)(*e, n); }
void h_call(E* out, FH* f, E* e, int i) { ::new (out) E((*f)(std::move(*e), i)); }
void p_ctor(FP* f, Pf x) { ::new (f) FP(x); }
void p_ctor_fn(FP* f) { ::new (f) FP(target); }
long p_call(FP* f, int i, long j) { return (*f)(i, j); }
void p_dtor(FP* f) { f->~FP(); }
// history: two functions, swapped by moves, each still calls its own target
long f_two(F* x, F* y, int i, E* e, const E* r, const char* p) { FF a(*x), b(*y); a(i, *e, *r, p); return b(i, *e, *r, p); }
}
