// Replay driver for C27: what is written through cest::cout, cerr, clog, printf and fprintf against what the standard library writes.
#include <cstdio>
#include <sstream>
#include <string>
#include <climits>
#include <unistd.h>
#include "common.hpp"
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
using namespace vp;
static std::stringbuf B[3];
static std::string took(int k) { std::string s = B[k].str(); B[k].str(""); return s; }
static cest::ostream *C[4]; static int saved_out = -1; static FILE *tmp;
struct Cap { // redirects the C stdout to a temporary file that is already unlinked
  Cap() { std::fflush(::stdout); rewind(tmp); if (ftruncate(fileno(tmp), 0)) abort(); dup2(fileno(tmp), 1); }
  std::string end() { std::fflush(::stdout); dup2(saved_out, 1); std::string s; long n = lseek(fileno(tmp), 0, SEEK_END); s.resize(n); if (n && pread(fileno(tmp), &s[0], n, 0) != n) abort(); lseek(fileno(tmp), 0, SEEK_SET); return s; }
};
static void note(const char *w, int k, const std::string &v) { static const char *N[] = {"cout", "cerr", "clog", "other"}; g_hist = std::string(w) + " into " + N[k] + ": "; for (char c : v.substr(0, 60)) { char t[8]; snprintf(t, sizeof t, c >= 32 && c < 127 ? "%c" : "\\x%02x", (unsigned char)c); g_hist += t; } g_cases++; }
static void expect(int k, const std::string &want) { for (int i = 0; i < 3; i++) { std::string g = took(i); if (i == k) REQ(g == want); else REQ(g.empty()); } }
template <class V> static void ins(const char *w, const V &v, const std::string &want) {
  for (int k = 0; k < 4; k++) { note(w, k, want); auto st = C[k]->rdstate(); cest::ostream *r = &(*C[k] << v); REQ(r == C[k]); REQ(C[k]->rdstate() == st); expect(k, want); }
}
template <class... A> static void fmt(const char *f, A... a) {
  int n = std::snprintf(nullptr, 0, f, a...); std::string want; if (n >= 0) { want.resize(n + 1); std::snprintf(&want[0], n + 1, f, a...); want.resize(n); }
  for (int k = 0; k < 4; k++) { note("fprintf", k, f); long l0 = L.live; ledger_on = k == 3; int r = cest::fprintf(C[k], f, a...); ledger_on = false; REQ(L.live == l0); REQ(r == n); expect(k, want); }
  note("printf", 0, f); Cap c; int r = cest::printf(f, a...); std::string g = c.end(); expect(3, ""); if (n >= 0) REQ(r == n && g == want); else REQ(r < 0);
}
int main() {
  saved_out = dup(1); tmp = tmpfile(); if (saved_out < 0 || !tmp) { fprintf(::stderr, "cannot capture stdout\n"); return 3; }
  std::cout.rdbuf(&B[0]); std::cerr.rdbuf(&B[1]); std::clog.rdbuf(&B[2]);
  cest::basic_stringbuf<char> ob(cest::string("o")); cest::ostream other(&ob); C[0] = &cest::cout; C[1] = &cest::cerr; C[2] = &cest::clog; C[3] = &other;
  REQ(cest::stdout == C[0] && cest::stderr == C[1]);
  for (int v : {0, 1, -1, 7, 10, 99, -100, 12345678, INT_MAX, INT_MIN, INT_MIN + 1}) { ins("int", v, std::to_string(v)); ins("unsigned", (unsigned)v, std::to_string((unsigned)v)); }
  for (int c = 0; c < 256; c++) ins("char", (char)c, std::string(1, (char)c));
  Rng r(seed()); long N = thorough() ? 20000 : 1000;
  for (long i = 0; i < N; i++) {
    std::string s; int n = r.below(i % 7 ? 12 : 300); for (int j = 0; j < n; j++) s += (char)r.below(i % 3 ? 4 : 256); ins("string", cest::string(s.data(), s.size()), s);
    std::string t = s.c_str(); ins("C string", (const char *)t.c_str(), t); int v = (int)r.next(); ins("int", v, std::to_string(v));
    std::string a, b; for (char ch : t) a += ch == '%' ? std::string("%%") : std::string(1, ch); fmt(a.c_str()); fmt("%s|%d", t.c_str(), v); fmt((a + "%c%5.3f").c_str(), (int)r.below(256), (double)v / 7);
  }
  ins("string", cest::string("", 0), ""); ins("C string", (const char *)"", "");
  for (int k = 0; k < 4; k++) { note("endl", k, "\n"); cest::ostream *q = &(*C[k] << cest::endl<char, std::char_traits<char>>); REQ(q == C[k]); expect(k, "\n"); q = &cest::endl(*C[k]); REQ(q == C[k]); expect(k, "\n");
    note("chain", k, ""); *C[k] << 1 << 'a' << "bc" << 2u << cest::string("d"); expect(k, "1abc2d"); }
  fmt(""); fmt("%%"); fmt("100%%\n"); fmt("%d", 5); fmt("%5d|%-5d|%05d", 42, 42, 42); fmt("%c", 0); fmt("a%cb%cc", 0, 0); fmt("%s", ""); fmt("%s %s", "x", "yy"); fmt("%d %s %g", 1, "two", 3.5); fmt("%u %lx", 7u, 255ul); fmt("%300d", 1); fmt("%p", (void *)&r); fmt("%.10000s|", "z"); fmt("%5000s|", "z"); fmt("%f", 1e300);
  fmt("x%lc", (int)0x110000); // not a character: an error
  static cest::ostream *seen; static int calls; seen = nullptr; calls = 0; note("manipulator", 3, "");
  cest::ostream *q = &(other << +[](cest::ostream &o) -> cest::ostream & { seen = &o; calls++; return cest::cerr; }); REQ(seen == &other && calls == 1 && q == &cest::cerr);
  calls = 0; q = &(other << +[](cest::ios_base &o) -> cest::ios_base & { calls++; return o; }); REQ(calls == 1 && q == &other);
  calls = 0; q = &(other << +[](cest::basic_ios<char> &o) -> cest::basic_ios<char> & { calls++; return o; }); REQ(calls == 1 && q == &other);
  static cest::ostream *elsewhere = &cest::clog; // a manipulator may return another stream than the one it is given
  calls = 0; q = &(other << +[](cest::ios_base &) -> cest::ios_base & { calls++; return *elsewhere; }); REQ(calls == 1 && q == &other);
  calls = 0; q = &(other << +[](cest::basic_ios<char> &) -> cest::basic_ios<char> & { calls++; return *elsewhere; }); REQ(calls == 1 && q == &other);
  for (int n = 1; n < 1100; n += n < 300 ? 1 : 37) fmt("%*d|", n, 5); // every length of text
  std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr); std::clog.rdbuf(nullptr);
  fprintf(::stdout, "PASS %ld cases\n", g_cases);
}
