// Wrappers under contract: each calls exactly one output operation of the real cest console streams.
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
using O = cest::ostream; using Str = cest::string; using IO = cest::basic_ios<char>;
extern "C" {
#define OFF(C, f) __builtin_offsetof(C, f)
extern const unsigned long S_sizeof = sizeof(Str), S_off_size = OFF(Str, m_size), S_off_cap = OFF(Str, m_capacity), S_off_p = OFF(Str, m_p), O_size = sizeof(O), O_state = OFF(O, _M_streambuf_state), O_exc = OFF(O, _M_exception), O_flags = OFF(O, _M_flags), O_prec = OFF(O, _M_precision), O_width = OFF(O, _M_width);
O* c_cout() { return &cest::cout; }
O* c_cerr() { return &cest::cerr; }
O* c_clog() { return &cest::clog; }
O* f_stdout() { return cest::stdout; }
O* f_stderr() { return cest::stderr; }
O* o_int(O* o, int v) { return &(*o << v); }
O* o_uint(O* o, unsigned v) { return &(*o << v); }
O* o_char(O* o, char v) { return &(*o << v); }
O* o_cstr(O* o, const char* v) { return &(*o << v); }
O* o_str(O* o, const Str* v) { return &(*o << *v); }
O* o_endl(O* o) { return &(*o << cest::endl<char, std::char_traits<char>>); }
O* o_endl_call(O* o) { return &cest::endl(*o); }
O* o_pf(O* o, O& (*f)(O&)) { return &(*o << f); }
O* o_pfios(O* o, cest::basic_ios<char>& (*f)(cest::basic_ios<char>&)) { return &(*o << f); }
O* o_pfbase(O* o, cest::ios_base& (*f)(cest::ios_base&)) { return &(*o << f); }
int p_plain(const char* f) { return cest::printf(f); }
int p_int(const char* f, int a) { return cest::printf(f, a); }
int p_three(const char* f, int a, const char* b, double c) { return cest::printf(f, a, b, c); }
int fp_plain(O* o, const char* f) { return cest::fprintf(o, f); }
int fp_int(O* o, const char* f, int a) { return cest::fprintf(o, f, a); }
int fp_three(O* o, const char* f, int a, const char* b, double c) { return cest::fprintf(o, f, a, b, c); }
}
