// Wrappers under contract: each calls exactly one operation of the real cest::shared_ptr.
#include <cest/memory.hpp>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); ~E(); char c; };
struct D { D(const D&); D(D&&) noexcept; ~D(); void operator()(E*) const; char t; };   // opaque deleter
using S = cest::shared_ptr<E>; using A = cest::shared_ptr<E[]>;
using SB = cest::impl::shared_ptr_base<E,E>; using AB = cest::impl::shared_ptr_base<E,E[]>;
using CE = SB::ctrl_derived<E, SB::def_del<E>>; using CD = SB::ctrl_derived<E, D>; using CA = AB::ctrl_derived<E, AB::def_del<E[]>>; using AD = AB::ctrl_derived<E, D>;
extern "C" {
extern const unsigned long S_size = sizeof(S), S_ptr = __builtin_offsetof(SB, ptr_), S_ctrl = __builtin_offsetof(SB, pctrl_);
extern const unsigned long CE_size = sizeof(CE), CD_size = sizeof(CD), CA_size = sizeof(CA), AD_size = sizeof(AD), C_count = __builtin_offsetof(CE, count_), C_ptr = __builtin_offsetof(CE, ptr_), C_del = __builtin_offsetof(CD, del_);
void sp_ctor(S* s) { ::new (s) S(); }
void sp_ctor_null(S* s) { ::new (s) S(nullptr); }
void sp_ctor_p(S* s, E* p) { ::new (s) S(p); }
void sp_ctor_pd(S* s, E* p, const D* d) { ::new (s) S(p, *d); }
void sp_copy(S* s, const S* o) { ::new (s) S(*o); }
void sp_move(S* s, S* o) { ::new (s) S(std::move(*o)); }
void sp_alias(S* s, const S* o, E* p) { ::new (s) S(*o, p); }
S* sp_assign(S* s, const S* o) { return &(*s = *o); }
S* sp_massign(S* s, S* o) { return &(*s = std::move(*o)); }
void sp_dtor(S* s) { s->~S(); }
long sp_count(const S* s) { return s->use_count(); }
E* sp_get(const S* s) { return s->get(); }
E* sp_deref(const S* s) { return &**s; }
E* sp_arrow(const S* s) { return s->operator->(); }
bool sp_bool(const S* s) { return (bool)*s; }
void ap_ctor(A* s) { ::new (s) A(); }
void ap_ctor_p(A* s, E* p) { ::new (s) A(p); }
void ap_ctor_pd(A* s, E* p, const D* d) { ::new (s) A(p, *d); }
void ap_copy(A* s, const A* o) { ::new (s) A(*o); }
A* ap_assign(A* s, const A* o) { return &(*s = *o); }
void ap_dtor(A* s) { s->~A(); }
long ap_count(const A* s) { return s->use_count(); }
E* ap_get(const A* s) { return s->get(); }
E* ap_index(const A* s, long i) { return &(*s)[i]; }
bool ap_bool(const A* s) { return (bool)*s; }
// get_deleter reports the stored deleter of that type
D* sp_deleter(const S* s) { return cest::impl::get_deleter<D>(*s); }
}
