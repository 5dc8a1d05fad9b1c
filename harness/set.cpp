// Wrappers under contract: each calls exactly one operation of the real cest::set.
#include <utility>
#include <cest/set.hpp>
#include <cstddef>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); E& operator=(E&&) noexcept; ~E(); char c; };
struct Q { char c; };
struct Cmp { using is_transparent = void; bool operator()(const E&, const E&) const; bool operator()(const Q&, const E&) const; bool operator()(const E&, const Q&) const; };
using C = cest::set<E, Cmp>; using It = C::const_iterator; using N = C::node;
template class cest::set<E, Cmp>;
extern "C" {
extern const unsigned long S_sizeof = sizeof(C), S_root = offsetof(C, m_root), S_begin = offsetof(C, m_begin), S_size = offsetof(C, m_size), N_sizeof = sizeof(N), N_key = __builtin_offsetof(N, x), N_val = __builtin_offsetof(N, x), N_l = __builtin_offsetof(N, l), N_r = __builtin_offsetof(N, r), N_p = __builtin_offsetof(N, p), N_c = __builtin_offsetof(N, c), c_red = C::RED, c_black = C::BLACK, I_node = offsetof(It, curr_node);
void s_ctor(C* v) { ::new (v) C(); }
void s_ctor_copy(C* v, const C* o) { ::new (v) C(*o); }
void s_dtor(C* v) { v->~C(); }
C* s_assign(C* v, const C* o) { return &(*v = *o); }
It s_begin(const C* v) { return v->begin(); }
It s_cbegin(const C* v) { return v->cbegin(); }
It s_end(C* v) { return v->end(); }
It s_end_c(const C* v) { return v->end(); }
It s_cend(const C* v) { return v->cend(); }
unsigned long s_size(const C* v) { return v->size(); }
bool s_empty(const C* v) { return v->empty(); }
void s_clear(C* v) { v->clear(); }
It s_find(C* v, const E* x) { return v->find(*x); }
It s_find_c(const C* v, const E* x) { return v->find(*x); }
It s_find_q(C* v, const Q* x) { return v->find(*x); }
It s_find_qc(const C* v, const Q* x) { return v->find(*x); }
void s_insert(C* v, const E* x, It* out, bool* added) { auto r = v->insert(*x); *out = r.first; *added = r.second; }
It s_insert_hint(C* v, It h, const E* x) { return v->insert(h, *x); }
const E* it_deref(const It* i) { return &**i; }
const E* it_arrow(const It* i) { return i->operator->(); }
It* it_pre(It* i) { return &++*i; }
It it_post(It* i) { return (*i)++; }
bool it_eq(const It* i, const It* j) { return *i == *j; }
bool it_ne(const It* i, const It* j) { return *i != *j; }
}
