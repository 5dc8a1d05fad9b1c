// Wrappers under contract for nary::swap and nary::swapr, 0 to 8 arguments of an opaque type.
#include <cest/swap.hpp>
#include <new>
struct E { E(); E(const E&); E(E&&) noexcept; E& operator=(const E&); E& operator=(E&&) noexcept; ~E(); char c; };
extern "C" {
void swap0() { nary::swap(); }
void swap1(E* a) { nary::swap(*a); }
void swap2(E* a, E* b) { nary::swap(*a, *b); }
void swap3(E* a, E* b, E* c) { nary::swap(*a, *b, *c); }
void swap4(E* a, E* b, E* c, E* d) { nary::swap(*a, *b, *c, *d); }
void swap5(E* a, E* b, E* c, E* d, E* e) { nary::swap(*a, *b, *c, *d, *e); }
void swap6(E* a, E* b, E* c, E* d, E* e, E* f) { nary::swap(*a, *b, *c, *d, *e, *f); }
void swap7(E* a, E* b, E* c, E* d, E* e, E* f, E* g) { nary::swap(*a, *b, *c, *d, *e, *f, *g); }
void swap8(E* a, E* b, E* c, E* d, E* e, E* f, E* g, E* h) { nary::swap(*a, *b, *c, *d, *e, *f, *g, *h); }
void swapr0() { nary::swapr(); }
void swapr1(E* a) { nary::swapr(*a); }
void swapr2(E* a, E* b) { nary::swapr(*a, *b); }
void swapr3(E* a, E* b, E* c) { nary::swapr(*a, *b, *c); }
void swapr4(E* a, E* b, E* c, E* d) { nary::swapr(*a, *b, *c, *d); }
void swapr5(E* a, E* b, E* c, E* d, E* e) { nary::swapr(*a, *b, *c, *d, *e); }
void swapr6(E* a, E* b, E* c, E* d, E* e, E* f) { nary::swapr(*a, *b, *c, *d, *e, *f); }
void swapr7(E* a, E* b, E* c, E* d, E* e, E* f, E* g) { nary::swapr(*a, *b, *c, *d, *e, *f, *g); }
void swapr8(E* a, E* b, E* c, E* d, E* e, E* f, E* g, E* h) { nary::swapr(*a, *b, *c, *d, *e, *f, *g, *h); }
}
