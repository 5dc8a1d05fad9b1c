// Wrappers under contract: each calls exactly one operation of the real cest stream classes.
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include <new>
using I = cest::istream; using IS = cest::istringstream; using SS = cest::stringstream; using B = cest::basic_stringbuf<char>; using BB = cest::basic_streambuf<char>; using Str = cest::string; using IO = cest::basic_ios<char>;
using St = cest::ios_base::iostate;
extern "C" {
#define OFF(C, f) __builtin_offsetof(C, f)
extern const unsigned long S_sizeof = sizeof(Str), S_off_size = OFF(Str, m_size), S_off_cap = OFF(Str, m_capacity), S_off_p = OFF(Str, m_p);
extern const unsigned long IS_size = sizeof(IS), SS_size = sizeof(SS), I_size = sizeof(I), IS_buf = OFF(IS, _M_stringbuf), SS_buf = OFF(SS, _M_stringbuf), B_size = sizeof(B);
extern const unsigned long I_gcount = OFF(I, _M_gcount), I_state = OFF(I, _M_streambuf_state), I_exc = OFF(I, _M_exception), I_flags = OFF(I, _M_flags), I_tie = OFF(I, _M_tie), I_sb = OFF(I, _M_streambuf), I_prec = OFF(I, _M_precision), I_width = OFF(I, _M_width);
extern const unsigned long B_beg = OFF(B, _M_in_beg), B_cur = OFF(B, _M_in_cur), B_end = OFF(B, _M_in_end), B_obeg = OFF(B, _M_out_beg), B_ocur = OFF(B, _M_out_cur), B_oend = OFF(B, _M_out_end), B_mode = OFF(B, _M_mode), B_str = OFF(B, _M_string);
// state
void ios_clear(IO* s, int b) { s->clear(St(b)); }
void ios_clear0(IO* s) { s->clear(); }
void ios_setstate(IO* s, int b) { s->setstate(St(b)); }
int ios_rdstate(const IO* s) { return s->rdstate(); }
bool ios_good(const IO* s) { return s->good(); }
bool ios_eof(const IO* s) { return s->eof(); }
bool ios_fail(const IO* s) { return s->fail(); }
bool ios_bool(const IO* s) { return (bool)*s; }
bool ios_not(const IO* s) { return !*s; }
int ios_exc(const IO* s) { return s->exceptions(); }
void ios_setexc(IO* s, int b) { s->exceptions(St(b)); }
BB* ios_rdbuf(const IO* s) { return s->rdbuf(); }
void i_ctor(I* s, BB* b) { ::new (s) I(b); }
// string streams
void is_ctor(IS* s) { ::new (s) IS(); }
void ss_ctor(SS* s) { ::new (s) SS(); }
void is_ctor_s(IS* s, const Str* t) { ::new (s) IS(*t); }
void ss_ctor_s(SS* s, const Str* t) { ::new (s) SS(*t); }
void is_ctor_m(IS* s, const Str* t, int m) { ::new (s) IS(*t, (cest::ios_base::openmode)m); }
void ss_ctor_m(SS* s, const Str* t, int m) { ::new (s) SS(*t, (cest::ios_base::openmode)m); }
void is_str(IS* s, const Str* t) { s->str(*t); }
void ss_str(SS* s, const Str* t) { s->str(*t); }
void is_dtor(IS* s) { s->~IS(); }
void ss_dtor(SS* s) { s->~SS(); }
I* i_get(I* s, char* c) { return &s->get(*c); }
I* i_unget(I* s) { return &s->unget(); }
I* i_read(I* s, char* d, long n) { return &s->read(d, n); }
long i_gcount(const I* s) { return s->gcount(); }
// memory-backed files
I* c_fmemopen(char* p, unsigned long n, const char* m) { return cest::fmemopen(p, n, m); }
unsigned long c_fread(char* d, unsigned long n, I* f) { return cest::fread(d, 1, n, f); }
int c_fclose(I* f) { return cest::fclose(f); }
}
