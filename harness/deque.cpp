// Wrappers under contract: each calls exactly one operation of the real cest::deque.
#include <cest/deque.hpp>
#include <cstddef>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); E& operator=(E&&) noexcept; ~E(); bool operator==(const E&) const; char c; };
using D = cest::deque<E>; using It = D::iter; using CI = D::const_iter; using V = cest::vector<E*>;
template class cest::deque<E>;
extern "C" {
extern const unsigned long D_sizeof = sizeof(D), D_front = offsetof(D, m_front), D_back = offsetof(D, m_back), D_fc = offsetof(D, m_front_chunk), D_bc = offsetof(D, m_back_chunk), D_size = offsetof(D, m_size), D_vec = offsetof(D, m_chunks),
  V_size = offsetof(V, m_size), V_cap = offsetof(V, m_capacity), V_p = offsetof(V, m_p), CH_SZ = CHUNK_SIZE, I_sizeof = sizeof(It), I_p = offsetof(It, m_p), I_pp = offsetof(It, m_ppchunk), CI_p = offsetof(CI, m_p), CI_pp = offsetof(CI, m_ppchunk);
void d_ctor(D* v) { ::new (v) D(); }
void d_ctor_copy(D* v, const D* o) { ::new (v) D(*o); }
void d_ctor_move(D* v, D* o) { ::new (v) D(static_cast<D&&>(*o)); }
void d_ctor_il(D* v, const E* b, unsigned long n) {
  struct IL { const E* b; unsigned long n; } r{b, n};
  static_assert(sizeof(IL) == sizeof(std::initializer_list<E>));
  ::new (v) D(__builtin_bit_cast(std::initializer_list<E>, r)); }
void d_dtor(D* v) { v->~D(); }
D* d_assign(D* v, const D* o) { return &(*v = *o); }
void d_clear(D* v) { v->clear(); }
void d_push_front(D* v, const E* x) { v->push_front(*x); }
void d_push_front_m(D* v, E* x) { v->push_front(static_cast<E&&>(*x)); }
void d_push_back(D* v, const E* x) { v->push_back(*x); }
void d_push_back_m(D* v, E* x) { v->push_back(static_cast<E&&>(*x)); }
void d_pop_back(D* v) { v->pop_back(); }
void d_pop_front(D* v) { v->pop_front(); }
It d_begin(D* v) { return v->begin(); }
It d_end(D* v) { return v->end(); }
CI d_begin_c(const D* v) { return v->begin(); }
CI d_end_c(const D* v) { return v->end(); }
CI d_cbegin(const D* v) { return v->cbegin(); }
CI d_cend(const D* v) { return v->cend(); }
E* d_front(D* v) { return &v->front(); }
const E* d_cfront(const D* v) { return &v->front(); }
E* d_back(D* v) { return &v->back(); }
const E* d_cback(const D* v) { return &v->back(); }
E* d_at(D* v, unsigned long i) { return &(*v)[i]; }
const E* d_cat(const D* v, unsigned long i) { return &(*v)[i]; }
bool d_empty(const D* v) { return v->empty(); }
unsigned long d_size(const D* v) { return v->size(); }
E* it_deref(const It* i) { return &**i; }
E* it_arrow(const It* i) { return i->operator->(); }
It* it_pre(It* i) { return &++*i; }
It* it_predec(It* i) { return &--*i; }
It it_post(It* i) { return (*i)++; }
It it_postdec(It* i) { return (*i)--; }
bool it_eq(const It* i, const It* j) { return *i == *j; }
bool it_ne(const It* i, const It* j) { return *i != *j; }
long it_diff(const It* i, const It* j) { return *i - *j; }
const E* ci_deref(const CI* i) { return &**i; }
const E* ci_arrow(const CI* i) { return i->operator->(); }
CI* ci_pre(CI* i) { return &++*i; }
CI* ci_predec(CI* i) { return &--*i; }
CI ci_post(CI* i) { return (*i)++; }
CI ci_postdec(CI* i) { return (*i)--; }
bool ci_eq(const CI* i, const CI* j) { return *i == *j; }
bool ci_ne(const CI* i, const CI* j) { return *i != *j; }
long ci_diff(const CI* i, const CI* j) { return *i - *j; }
CI ci_of(It i) { return i; }
}
