// Wrappers under contract: each calls exactly one operation of the real cest::list.
#include <cest/list.hpp>
#include <cstddef>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); E& operator=(E&&) noexcept; ~E(); bool operator==(const E&) const; char c; };
using L = cest::list<E>; using It = L::iter; using CI = L::const_iter;
template struct cest::list<E>;
extern "C" {
extern const unsigned long L_sizeof = sizeof(L), L_off_node = offsetof(L, m_node), L_off_size = offsetof(L, m_size), N_sizeof = sizeof(L::node), N_off_next = __builtin_offsetof(L::node, next), N_off_prev = __builtin_offsetof(L::node, prev), N_off_val = __builtin_offsetof(L::node, value);
void l_ctor(L* v) { ::new (v) L(); }
void l_ctor_copy(L* v, const L* o) { ::new (v) L(*o); }
void l_ctor_move(L* v, L* o) { ::new (v) L(static_cast<L&&>(*o)); }
void l_dtor(L* v) { v->~L(); }
L* l_assign(L* v, const L* o) { return &(*v = *o); }
E* l_front(L* v) { return &v->front(); }
const E* l_cfront(const L* v) { return &v->front(); }
E* l_back(L* v) { return &v->back(); }
const E* l_cback(const L* v) { return &v->back(); }
It l_begin(L* v) { return v->begin(); }
It l_end(L* v) { return v->end(); }
CI l_begin_c(const L* v) { return v->begin(); }
CI l_end_c(const L* v) { return v->end(); }
CI l_cbegin(const L* v) { return v->cbegin(); }
CI l_cend(const L* v) { return v->cend(); }
bool l_empty(const L* v) { return v->empty(); }
unsigned long l_size(const L* v) { return v->size(); }
void l_clear(L* v) { v->clear(); }
void l_push_back(L* v, const E* x) { v->push_back(*x); }
void l_push_back_m(L* v, E* x) { v->push_back(static_cast<E&&>(*x)); }
void l_push_front(L* v, const E* x) { v->push_front(*x); }
void l_push_front_m(L* v, E* x) { v->push_front(static_cast<E&&>(*x)); }
E* l_emplace_back(L* v, const E* x) { return &v->emplace_back(*x); }
E* l_emplace_front(L* v, const E* x) { return &v->emplace_front(*x); }
It l_insert(L* v, It p, const E* x) { return v->insert(p, *x); }
It l_insert_m(L* v, It p, E* x) { return v->insert(p, static_cast<E&&>(*x)); }
It l_emplace(L* v, It p, const E* x) { return v->emplace(p, *x); }
It l_erase(L* v, It p) { return v->erase(p); }
void l_pop_back(L* v) { v->pop_back(); }
void l_pop_front(L* v) { v->pop_front(); }
E* it_deref(const It* i) { return &**i; }
E* it_arrow(const It* i) { return i->operator->(); }
It* it_pre(It* i) { return &++*i; }
It* it_predec(It* i) { return &--*i; }
It it_post(It* i) { return (*i)++; }
It it_postdec(It* i) { return (*i)--; }
bool it_eq(const It* i, const It* j) { return *i == *j; }
bool it_ne(const It* i, const It* j) { return *i != *j; }
const E* ci_deref(const CI* i) { return &**i; }
const E* ci_arrow(const CI* i) { return i->operator->(); }
CI* ci_pre(CI* i) { return &++*i; }
CI* ci_predec(CI* i) { return &--*i; }
CI ci_post(CI* i) { return (*i)++; }
CI ci_postdec(CI* i) { return (*i)--; }
bool ci_eq(const CI* i, const CI* j) { return *i == *j; }
bool ci_ne(const CI* i, const CI* j) { return *i != *j; }
CI ci_of(It i) { return i; }
}
