// Wrappers under contract: each calls exactly one operation of the real cest::basic_string<char>.
#include <cest/string.hpp>
#include <cstddef>
#include <new>
#include <iterator>
using S = cest::string;
// opaque single-pass input iterator: position and end are only known to its contract
struct In {
  using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = long; using pointer = const char*; using reference = char;
  unsigned long pos;
  In(const In&) = default; In& operator=(const In&) = default;
  char operator*() const; In& operator++(); bool operator!=(const In&) const; bool operator==(const In&) const;
};
extern "C" {
extern const unsigned long S_sizeof = sizeof(S), S_off_size = offsetof(S, m_size), S_off_cap = offsetof(S, m_capacity), S_off_p = offsetof(S, m_p);
void str_ctor(S* s) { ::new (s) S(); }
void str_ctor_alloc(S* s, const std::allocator<char>* a) { ::new (s) S(*a); }
void str_ctor_n(S* s, const char* p, unsigned long n) { ::new (s) S(p, n); }
void str_ctor_c(S* s, const char* p) { ::new (s) S(p); }
void str_ctor_copy(S* s, const S* o) { ::new (s) S(*o); }
void str_ctor_range(S* s, In* a, In* b) { ::new (s) S(*a, *b); }
void str_dtor(S* s) { s->~S(); }
unsigned long str_size(const S* s) { return s->size(); }
unsigned long str_length(const S* s) { return s->length(); }
unsigned long str_capacity(const S* s) { return s->capacity(); }
bool str_empty(const S* s) { return s->empty(); }
const char* str_begin_c(const S* s) { return s->begin(); }
char* str_begin(S* s) { return s->begin(); }
const char* str_cbegin(const S* s) { return s->cbegin(); }
char* str_end(S* s) { return s->end(); }
const char* str_end_c(const S* s) { return s->end(); }
const char* str_cend(const S* s) { return s->cend(); }
const char* str_c_str(const S* s) { return s->c_str(); }
const char* str_data_c(const S* s) { return s->data(); }
char* str_data(S* s) { return s->data(); }
char* str_front(S* s) { return &s->front(); }
const char* str_front_c(const S* s) { return &s->front(); }
char* str_back(S* s) { return &s->back(); }
const char* str_back_c(const S* s) { return &s->back(); }
char* str_index(S* s, unsigned long i) { return &(*s)[i]; }
const char* str_index_c(const S* s, unsigned long i) { return &(*s)[i]; }
void str_clear(S* s) { s->clear(); }
void str_pop_back(S* s) { s->pop_back(); }
void str_push_back(S* s, const char* c) { s->push_back(*c); }
S* str_append_n(S* s, const char* p, unsigned long n) { return &s->append(p, n); }
S* str_append_s(S* s, const S* o) { return &s->append(*o); }
S* str_plus_s(S* s, const S* o) { return &(*s += *o); }
S* str_plus_c(S* s, char c) { return &(*s += c); }
S* str_assign_c(S* s, const char* p) { return &(*s = p); }
S* str_assign_s(S* s, const S* o) { return &(*s = *o); }
void str_reserve(S* s, unsigned long n) { s->reserve(n); }
unsigned long str_find_s(const S* s, const S* o, unsigned long pos) { return s->find(*o, pos); }
unsigned long str_find_s0(const S* s, const S* o) { return s->find(*o); }
unsigned long str_find_c(const S* s, char c, unsigned long pos) { return s->find(c, pos); }
unsigned long str_find_c0(const S* s, char c) { return s->find(c); }
unsigned long str_find_n(const S* s, const char* p, unsigned long pos, unsigned long n) { return s->find(p, pos, n); }
unsigned long str_find_p(const S* s, const char* p, unsigned long pos) { return s->find(p, pos); }
unsigned long str_find_p0(const S* s, const char* p) { return s->find(p); }
int str_compare_s(const S* s, const S* o) { return s->compare(*o); }
int str_compare_c(const S* s, const char* p) { return s->compare(p); }
bool str_eq_ss(const S* s, const S* o) { return *s == *o; }
bool str_eq_sc(const S* s, const char* p) { return *s == p; }
bool str_eq_cs(const S* s, const char* p) { return p == *s; }
bool str_ne_ss(const S* s, const S* o) { return *s != *o; }
bool str_ne_sc(const S* s, const char* p) { return *s != p; }
bool str_ne_cs(const S* s, const char* p) { return p != *s; }
bool str_lt_ss(const S* s, const S* o) { return *s < *o; }
bool str_lt_sc(const S* s, const char* p) { return *s < p; }
bool str_lt_cs(const S* s, const char* p) { return p < *s; }
}
// generic equality template (non-default traits), same source text
struct TR : std::char_traits<char> {};
using S2 = cest::basic_string<char, TR>;
extern "C" bool str2_eq_ss(const S2* s, const S2* o) { return *s == *o; }
