// Wrappers under contract: each calls exactly one operation of the real cest::unique_ptr.
#include <cest/memory.hpp>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; explicit E(int); E& operator=(const E&); ~E(); char c; };
struct B { virtual ~B(); long v; }; struct D : B { ~D(); long w; };
using U = cest::unique_ptr<E>;
extern "C" {
extern const unsigned long U_sizeof = sizeof(U), U_off = __builtin_offsetof(U, ptr_), E_size = sizeof(E);
void up_ctor(U* u) { ::new (u) U(); }
void up_ctor_p(U* u, E* p) { ::new (u) U(p); }
void up_ctor_move(U* u, U* o) { ::new (u) U(std::move(*o)); }
U* up_assign(U* u, U* o) { return &(*u = std::move(*o)); }
void up_dtor(U* u) { u->~U(); }
E* up_get(const U* u) { return u->get(); }
E* up_release(U* u) { return u->release(); }
void up_reset(U* u) { u->reset(); }
void up_reset_p(U* u, E* p) { u->reset(p); }
E* up_deref(U* u) { return &**u; }
const E* up_cderef(const U* u) { return &**u; }
E* up_arrow(const U* u) { return u->operator->(); }
bool up_bool(const U* u) { return (bool)*u; }
bool up_eq(const U* a, const U* b) { return *a == *b; }
bool up_ne(const U* a, const U* b) { return *a != *b; }
bool up_lt(const U* a, const U* b) { return *a < *b; }
bool up_le(const U* a, const U* b) { return *a <= *b; }
bool up_gt(const U* a, const U* b) { return *a > *b; }
bool up_ge(const U* a, const U* b) { return *a >= *b; }
void up_make0(U* u) { ::new (u) U(cest::make_unique<E>()); }
void up_make_c(U* u, const E* x) { ::new (u) U(cest::make_unique<E>(*x)); }
void up_make_m(U* u, E* x) { ::new (u) U(cest::make_unique<E>(std::move(*x))); }
void up_make_i(U* u, int x) { ::new (u) U(cest::make_unique<E>(x)); }
// conversion from derived to base
void up_conv(cest::unique_ptr<B>* u, cest::unique_ptr<D>* o) { ::new (u) cest::unique_ptr<B>(std::move(*o)); }
// histories
void up_seq_assign(U* a, U* b) { *a = std::move(*b); b->~U(); a->~U(); }
void up_seq_move(U* a) { U b(std::move(*a)); U c; c = std::move(b); *a = std::move(c); }
}
