// C17, C18, C23: cest streams against a model (characters, position, state bits).
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
#include "common.hpp"
using namespace vp;
using IS = cest::istringstream; using SS = cest::stringstream; using St = cest::ios_base::iostate; using I = cest::istream;
enum { BAD = 1, EOFB = 2, FAIL = 4 };
static std::string show(const std::string &m) { std::string r = "\""; for (char c : m) { char t[8]; if (c >= 32 && c < 127) { r += c; } else { snprintf(t, 8, "\\x%02x", (unsigned char)c); r += t; } } return r + "\""; }
template <class S> static void bits(S &s, int st) {
  REQ((int)s.rdstate() == st); REQ(s.good() == (st == 0)); REQ(s.eof() == !!(st & EOFB)); REQ(s.fail() == !!(st & (BAD | FAIL))); REQ((bool)s == !(st & (BAD | FAIL))); REQ(!s == !!(st & (BAD | FAIL)));
}
static char hist0[400];
static long live() { snprintf(hist0, sizeof hist0, "%s", g_hist.c_str()); g_hist.clear(); g_hist.shrink_to_fit(); return L.live; }
static void leak(long l0) { long l = live(); if (l != l0) { g_hist = hist0; fail("everything is released", __FILE__, __LINE__); } }
struct M { std::string s; size_t p = 0; int st = 0; long g = 0; };
static std::string text(Rng &r, size_t n) { std::string s; for (size_t i = 0; i < n; i++) { static const char al[] = {0, (char)0xff, 'a', 'b', (char)0x80, '\n', ' ', 'z'}; s += r.below(3) ? al[r.below(8)] : (char)r.next(); } return s; }
template <class S> static void run(S &s, M &m, Rng &r, int steps, bool big) {
  for (int i = 0; i < steps; i++) {
    size_t rem = m.s.size() - m.p;
    switch (r.below(big ? 7 : 8)) {
    case 0: case 1: { char c = '?', c0 = c; say("get"); REQ(&s.get(c) == &s);
      if (m.st) { m.st |= FAIL; m.g = 0; REQ(c == c0); } else if (rem) { m.g = 1; REQ(c == m.s[m.p]); m.p++; } else { m.st = EOFB | FAIL; m.g = 0; REQ(c == c0); } break; }
    case 2: case 3: { size_t n = r.below(4) == 0 ? rem + r.below(3) : r.below(4) == 0 ? rem - (rem > 0) : r.below(rem + 3); say("read(%ld)", n); std::vector<char> d(n + 2, '#'); REQ(&s.read(d.data(), n) == &s); size_t k = 0;
      if (m.st) m.st |= FAIL; else { k = std::min(n, rem); if (n > rem) m.st = EOFB | FAIL; } REQ(!memcmp(d.data(), m.s.data() + m.p, k)); for (size_t j = k; j < n + 2; j++) REQ(d[j] == '#'); m.p += k; m.g = k; break; }
    case 4: say("unget"); REQ(&s.unget() == &s); m.g = 0; m.st &= ~EOFB; if (m.st) m.st |= FAIL; else if (m.p) m.p--; else m.st = BAD; break;
    case 5: say("clear"); s.clear(); m.st = 0; break;
    case 6: { int b = r.below(5) ? 0 : r.below(8); say("setstate(%ld)", b); s.setstate(St(b)); m.st |= b; break; }
    case 7: { std::string t = text(r, r.below(9)); g_hist += "str(" + show(t) + "); "; cest::string ct(t.data(), t.size()); s.str(ct); m.s = t; m.p = 0; break; }
    }
    REQ(s.gcount() == m.g); bits(s, m.st);
  }
}
template <class S> static void streams(const char *nm) {
  for (int k = 0; k < (thorough() ? 60000 : 6000); k++) { long l0 = live(); { Rng r(seed() * 1000003 + k); size_t n = k % 40 == 0 ? 250 + r.below(20) : r.below(10); M m; m.s = text(r, n);
    g_hist = nm; g_hist += "(" + show(m.s) + "); "; g_cases++; { cest::string t(m.s.data(), m.s.size());
    int md = k % 5; if (md == 4) { S s; m.s = ""; g_hist = nm; g_hist += "(); "; bits(s, 0); REQ(s.gcount() == 0); run(s, m, r, 12, false); }
    else if (md == 3) { S s(t, cest::ios_base::in | (r.below(2) ? cest::ios_base::out : cest::ios_base::in) | (r.below(2) ? cest::ios_base::ate : cest::ios_base::in)); g_hist += "with a mode; "; bits(s, 0); run(s, m, r, 12, false); }
    else { S s(t); bits(s, 0); REQ(s.gcount() == 0); run(s, m, r, n > 40 ? 30 : 12, n > 40); } } } leak(l0); }
  // exhaustive: every character value is delivered, one at a time and in one read; long buffers
  std::string all; for (int i = 0; i < 256; i++) all += (char)i;
  for (size_t n : {(size_t)256, (size_t)70000, (size_t)(thorough() ? 3000000 : 300000)}) { std::string s0; while (s0.size() < n) s0 += all; s0.resize(n); cest::string t(s0.data(), n); S s(t); g_hist = nm; say(": %ld characters", n); char c;
    for (size_t i = 0; i < n; i++) { s.get(c); REQ(s.good() && c == s0[i] && s.gcount() == 1); if (i % 7777 == 0) { s.unget(); s.get(c); REQ(s.good() && c == s0[i]); } } s.get(c); bits(s, EOFB | FAIL); s.clear(); s.unget(); s.get(c); REQ(c == s0[n - 1]);
    S u(t); std::vector<char> d(n + 9); size_t p = 0; for (size_t q : {(size_t)1, (size_t)255, n / 2, n}) { size_t k = std::min(q, n - p); u.read(d.data(), q); REQ((size_t)u.gcount() == k); REQ(!memcmp(d.data(), s0.data() + p, k)); p += k; } }
}
static void state() {
  struct Buf : cest::basic_stringbuf<char> {} ; for (int buf = 0; buf < 2; buf++) for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) { Buf sb; I s(buf ? &sb : nullptr); g_hist = buf ? "buffer; " : "no buffer; "; bits(s, buf ? 0 : BAD); int x = buf ? 0 : BAD;
    say("clear(%ld)", a); s.clear(St(a)); x = a | (buf ? 0 : BAD); bits(s, x); say("setstate(%ld)", b); s.setstate(St(b)); x |= b; bits(s, x); s.clear(); bits(s, buf ? 0 : BAD);
    REQ(s.exceptions() == 0); try { s.exceptions(St(a)); REQ(buf || !(a & BAD)); } catch (const std::exception &) { REQ(!buf && (a & BAD)); } REQ((int)s.exceptions() == a); g_cases++; }
  for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) { Buf sb; I s(&sb); g_hist = ""; say("exceptions(%ld) then setstate(%ld)", a, b); s.exceptions(St(a)); bool t = false; try { s.setstate(St(b)); } catch (const std::exception &) { t = true; } REQ(t == !!(a & b)); bits(s, b); }
}
static void files() {
  for (int k = 0; k < (thorough() ? 40000 : 4000); k++) { long l0 = live(); { Rng r(seed() * 1000003 + k); size_t n = k % 50 == 0 ? r.below(5000) : r.below(12); std::string b = text(r, n), b0 = b; g_hist = "fmemopen(" + (n < 40 ? show(b) : std::to_string(n) + " bytes") + "); "; g_cases++;
    { cest::FILE *f = cest::fmemopen(b.data(), n, "r"); size_t p = 0;
    for (int i = 0; i < 8; i++) { size_t rem = n - p, q = r.below(3) == 0 ? rem + r.below(2) : r.below(rem / 2 + 3), w = std::min(q, rem); say("fread(%ld)", q); std::vector<char> d(q + 1, '#'); REQ(cest::fread(d.data(), 1, q, f) == w); REQ(!memcmp(d.data(), b0.data() + p, w)); for (size_t j = w; j <= q; j++) REQ(d[j] == '#'); p += w; }
    REQ(b == b0); b.assign(n, '!'); REQ(cest::fclose(f) == 0); } } leak(l0); }
}
int main(int c, char **v) {
  ledger_on = true; std::string p = c > 1 ? v[1] : "";
  if (p != "C17" && p != "C23") state();
  if (p != "C18" && p != "C23") { streams<IS>("istringstream"); streams<SS>("stringstream"); }
  if (p != "C17" && p != "C18") files();
  ledger_on = false; printf("PASS %ld cases\n", g_cases);
}
