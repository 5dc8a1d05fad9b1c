// Wrappers under contract: each calls exactly one operation of the real cest::forward_list.
#include <cest/forward_list.hpp>
#include <cstddef>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); E& operator=(E&&) noexcept; ~E(); bool operator==(const E&) const; char c; };
using L = cest::forward_list<E>; using It = L::iter; using CI = L::const_iter;
template struct cest::forward_list<E>;
extern "C" {
extern const unsigned long L_sizeof = sizeof(L), L_off_node = offsetof(L, m_front), N_sizeof = sizeof(L::node), N_off_next = __builtin_offsetof(L::node, next), N_off_val = __builtin_offsetof(L::node, value);
void f_ctor(L* v) { ::new (v) L(); }
void f_ctor_copy(L* v, const L* o) { ::new (v) L(*o); }
void f_ctor_move(L* v, L* o) { ::new (v) L(static_cast<L&&>(*o)); }
void f_dtor(L* v) { v->~L(); }
L* f_assign(L* v, const L* o) { return &(*v = *o); }
L* f_assign_m(L* v, L* o) { return &(*v = static_cast<L&&>(*o)); }
void f_swap(L* v, L* o) { v->swap(*o); }
E* f_front(L* v) { return &v->front(); }
const E* f_cfront(const L* v) { return &v->front(); }
It f_begin(L* v) { return v->begin(); }
It f_end(L* v) { return v->end(); }
It f_before(L* v) { return v->before_begin(); }
CI f_begin_c(const L* v) { return v->begin(); }
CI f_end_c(const L* v) { return v->end(); }
CI f_cbegin(const L* v) { return v->cbegin(); }
CI f_cend(const L* v) { return v->cend(); }
bool f_empty(const L* v) { return v->empty(); }
void f_clear(L* v) { v->clear(); }
void f_push_front(L* v, const E* x) { v->push_front(*x); }
void f_push_front_m(L* v, E* x) { v->push_front(static_cast<E&&>(*x)); }
It f_insert(L* v, CI p, const E* x) { return v->insert_after(p, *x); }
It f_insert_m(L* v, CI p, E* x) { return v->insert_after(p, static_cast<E&&>(*x)); }
It f_erase(L* v, CI p) { return v->erase_after(p); }
It f_erase2(L* v, CI p, CI q) { return v->erase_after(p, q); }
void f_pop_front(L* v) { v->pop_front(); }
E* it_deref(const It* i) { return &**i; }
E* it_arrow(const It* i) { return i->operator->(); }
It* it_pre(It* i) { return &++*i; }
It it_post(It* i) { return (*i)++; }
bool it_eq(const It* i, const It* j) { return *i == *j; }
bool it_ne(const It* i, const It* j) { return *i != *j; }
const E* ci_deref(const CI* i) { return &**i; }
const E* ci_arrow(const CI* i) { return i->operator->(); }
CI* ci_pre(CI* i) { return &++*i; }
CI ci_post(CI* i) { return (*i)++; }
bool ci_eq(const CI* i, const CI* j) { return *i == *j; }
bool ci_ne(const CI* i, const CI* j) { return *i != *j; }
CI ci_of(It i) { return i; }
}
