// Wrappers under contract: each calls exactly one operation of the real cest::queue (over cest::deque, its default container).
#include "deque.cpp"
#include <cest/queue.hpp>
using Q = cest::queue<E>;
template class cest::queue<E>;
extern "C" {
extern const unsigned long Q_sizeof = sizeof(Q), Q_c = offsetof(Q, c);
void q_ctor(Q* q) { ::new (q) Q(); }
void q_ctor_cont(Q* q, const D* c) { ::new (q) Q(*c); }
void q_ctor_cont_m(Q* q, D* c) { ::new (q) Q(static_cast<D&&>(*c)); }
void q_ctor_copy(Q* q, const Q* o) { ::new (q) Q(*o); }
void q_dtor(Q* q) { q->~Q(); }
Q* q_assign(Q* q, const Q* o) { return &(*q = *o); }
bool q_empty(const Q* q) { return q->empty(); }
unsigned long q_size(const Q* q) { return q->size(); }
E* q_front(Q* q) { return &q->front(); }
const E* q_cfront(const Q* q) { return &q->front(); }
E* q_back(Q* q) { return &q->back(); }
const E* q_cback(const Q* q) { return &q->back(); }
void q_push(Q* q, const E* x) { q->push(*x); }
void q_push_m(Q* q, E* x) { q->push(static_cast<E&&>(*x)); }
void q_pop(Q* q) { q->pop(); }
}
