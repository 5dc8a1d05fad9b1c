// Wrappers under contract: each calls exactly one operation of the real cest::vector.
#include <cest/vector.hpp>
#include <cstddef>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); E& operator=(E&&) noexcept; ~E();
           bool operator==(const E&) const; char c; };
using V = cest::vector<E>;
template class cest::vector<E>;
extern "C" {
extern const unsigned long V_sizeof = sizeof(V), V_off_size = offsetof(V, m_size), V_off_cap = offsetof(V, m_capacity), V_off_p = offsetof(V, m_p);
void vec_ctor(V* v) { ::new (v) V(); }
void vec_ctor_copy(V* v, const V* o) { ::new (v) V(*o); }
void vec_ctor_move(V* v, V* o) { ::new (v) V(static_cast<V&&>(*o)); }
void vec_ctor_count(V* v, unsigned long n) { ::new (v) V(n); }
void vec_ctor_il(V* v, const E* b, unsigned long n) {
  struct IL { const E* b; unsigned long n; } r{b, n};
  static_assert(sizeof(IL) == sizeof(std::initializer_list<E>));
  ::new (v) V(__builtin_bit_cast(std::initializer_list<E>, r)); }
void vec_dtor(V* v) { v->~V(); }
V* vec_assign_copy(V* v, const V* o) { return &(*v = *o); }
V* vec_assign_move(V* v, V* o) { return &(*v = static_cast<V&&>(*o)); }
void vec_swap(V* v, V* o) { v->swap(*o); }
bool vec_empty(const V* v) { return v->empty(); }
unsigned long vec_size(const V* v) { return v->size(); }
unsigned long vec_capacity(const V* v) { return v->capacity(); }
void vec_reserve(V* v, unsigned long n) { v->reserve(n); }
void vec_resize(V* v, unsigned long n) { v->resize(n); }
void vec_clear(V* v) { v->clear(); }
void vec_push_back(V* v, const E* x) { v->push_back(*x); }
void vec_push_back_move(V* v, E* x) { v->push_back(static_cast<E&&>(*x)); }
void vec_pop_back(V* v) { v->pop_back(); }
E* vec_erase(V* v, E* a, E* b) { return v->erase(a, b); }
E* vec_at(V* v, unsigned long i) { return &v->at(i); }
const E* vec_at_c(const V* v, unsigned long i) { return &v->at(i); }
E* vec_index(V* v, unsigned long i) { return &(*v)[i]; }
const E* vec_index_c(const V* v, unsigned long i) { return &(*v)[i]; }
E* vec_front(V* v) { return &v->front(); }
const E* vec_front_c(const V* v) { return &v->front(); }
E* vec_back(V* v) { return &v->back(); }
const E* vec_back_c(const V* v) { return &v->back(); }
E* vec_data(V* v) { return v->data(); }
const E* vec_data_c(const V* v) { return v->data(); }
E* vec_begin(V* v) { return v->begin(); }
const E* vec_begin_c(const V* v) { return v->begin(); }
const E* vec_cbegin(const V* v) { return v->cbegin(); }
E* vec_end(V* v) { return v->end(); }
const E* vec_end_c(const V* v) { return v->end(); }
const E* vec_cend(const V* v) { return v->cend(); }
E* vec_rbegin(V* v) { return &*v->rbegin(); }
const E* vec_rbegin_c(const V* v) { return &*v->rbegin(); }
E* vec_rend(V* v) { return v->rend().base(); }
const E* vec_rend_c(const V* v) { return v->rend().base(); }
bool vec_eq(const V* v, const V* o) { return *v == *o; }
}
