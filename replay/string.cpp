// C03, C04: cest::string against std::string.
#include <cest/string.hpp>
#include "common.hpp"
using namespace vp;
static long g_live = 0;
template <class T> struct CA { using value_type = T; using size_type = size_t; using difference_type = ptrdiff_t; constexpr CA() {} template <class U> CA(const CA<U>&) {}
  T *allocate(size_t n) { if (n >> 40) throw std::bad_alloc(); g_live += n; T *p = (T*)malloc(n * sizeof(T)); return p; } void deallocate(T *p, size_t n) { if (p) g_live -= n; free(p); } bool operator==(const CA&) const { return true; } bool operator!=(const CA&) const { return false; } };
using S0 = cest::string; using S = cest::basic_string<char, std::char_traits<char>, CA<char>>; using M = std::string;
static bool content = true, search = true;
static std::string show(const M &m) { std::string r = "\""; for (char c : m) { char t[8]; if (c >= 32 && c < 127) { r += c; } else { snprintf(t, 8, "\\x%02x", (unsigned char)c); r += t; } } return r + "\""; }
static int sg(int x) { return (x > 0) - (x < 0); }
struct TR : std::char_traits<char> {};
using S2 = cest::basic_string<char, TR, CA<char>>;
struct In { using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = long; using pointer = const char*; using reference = char;
  const char *p; char operator*() const { return *p; } In &operator++() { ++p; return *this; } bool operator!=(const In &o) const { return p != o.p; } bool operator==(const In &o) const { return p == o.p; } };
static void same(const S &s, const M &m) {
  REQ(s.size() == m.size()); REQ(s.length() == m.size()); REQ(s.empty() == m.empty()); REQ(s.capacity() >= s.size());
  REQ(!memcmp(s.data(), m.data(), m.size())); REQ(s.c_str()[m.size()] == 0); REQ(s.data() == s.begin()); REQ(s.end() == s.begin() + m.size()); REQ(s.cend() == s.end() && s.cbegin() == s.begin());
  S &t = const_cast<S&>(s); REQ(t.begin() == s.begin() && t.end() == s.end() && t.data() == s.data());
  for (size_t i = 0; i < m.size(); i++) { REQ(s[i] == m[i]); REQ(t[i] == m[i]); }
  if (m.size()) { REQ(s.front() == m.front() && s.back() == m.back() && t.front() == m.front() && t.back() == m.back()); }
}
static M from(unsigned x, int n) { static const char al[] = {'a', 'b', 0, (char)0xff, (char)0x80, 'a', 'c', 'a'}; M m; for (int i = 0; i < n; i++) { m += al[x % 8]; x /= 3; } return m; }
static void searches(const M &a, const M &b) {
  g_hist = "hay " + show(a) + " needle " + show(b); long l0 = g_live; {
  S x(a.data(), a.size()), y(b.data(), b.size()); S2 x2(a.data(), a.size()), y2(b.data(), b.size());
  if (content) { same(x, a); same(y, b); }
  if (search) {
    for (size_t pos = 0; pos <= a.size() + 2; pos++) {
      REQ(x.find(y, pos) == a.find(b, pos)); REQ(x.find(b.data(), pos, b.size()) == a.find(b, pos)); REQ(x.find(b.c_str(), pos) == a.find(b.c_str(), pos));
      if (b.size()) REQ(x.find(b[0], pos) == a.find(b[0], pos)); REQ(x.find(x, pos) == a.find(a, pos));
    }
    for (size_t pos : {(size_t)-1, (size_t)-2, (size_t)1 << 63}) { REQ(x.find(y, pos) == S::npos); REQ(x.find('a', pos) == S::npos); }
    REQ(x.find(y) == a.find(b)); REQ(x.find(b.c_str()) == a.find(b.c_str())); if (b.size()) REQ(x.find(b[0]) == a.find(b[0]));
    int c = sg(a.compare(b)), cc = sg(a.compare(b.c_str()));
    REQ(sg(x.compare(y)) == c); REQ(sg(x.compare(b.c_str())) == cc); REQ((x == y) == (c == 0)); REQ((x != y) == (c != 0)); REQ((x < y) == (c < 0));
    REQ((x2 == y2) == (c == 0)); REQ((x2 != y2) == (c != 0)); REQ((x2 < y2) == (c < 0)); REQ(sg(x2.compare(y2)) == c);
    REQ((x == b.c_str()) == (cc == 0)); REQ((b.c_str() == x) == (cc == 0)); REQ((x != b.c_str()) == (cc != 0)); REQ((b.c_str() != x) == (cc != 0));
    REQ((x < b.c_str()) == (cc < 0)); REQ((b.c_str() < x) == (cc > 0)); REQ(x == x); REQ(!(x < x));
    S0 x0(a.data(), a.size()), y0(b.data(), b.size()); REQ((x0 == y0) == (c == 0)); REQ((x0 != y0) == (c != 0)); REQ((x0 < y0) == (c < 0)); REQ((x0 == b.c_str()) == (cc == 0)); REQ(x.compare(x) == 0);
  } }
  REQ(g_live == l0); g_cases++;
}
struct Sim { S s[2]; M m[2]; 
  void op(int k, uint64_t r) {
    int w = r & 1, o = 1 - w; r >>= 1; S &x = s[w]; M &a = m[w]; 
    int cap = 80; M t;
    t = from(r >> 16, r % 6);
    switch (k) {
    case 0: { char c = "ab\0\xff\x80z"[r % 6]; say("s%ld.push_back(%ld)", w, c); x.push_back(c); a.push_back(c); } break;
    case 1: if (a.empty()) return; { int j = (r >> 4) % a.size(); say("s%ld.push_back(own %ld)", w, j); x.push_back(x[j]); char c = a[j]; a.push_back(c); } break;
    case 2: { char c = "ab\0\xff\x80z"[r % 6]; say("s%ld += char %ld", w, c); REQ(&(x += c) == &x); a += c; } break;
    case 3: say("s%ld.append(p,n)", w); g_hist += show(t); REQ(&x.append(t.data(), t.size()) == &x); a.append(t); break;
    case 4: say("s%ld.append(s%ld)", w, o); if (m[o].size() > 40) return; x.append(s[o]); a.append(m[o]); break;
    case 5: say("s%ld += self", w); if (a.size() > 40) return; x += x; a += M(a); break;
    case 6: { size_t j = r % (a.size() + 1), n = (r >> 8) % (a.size() - j + 1); if (n > 40) return; say("s%ld.append(own", w); say("%ld,%ld)", j, n); x.append(x.data() + j, n); a.append(M(a, j, n)); } break;
    case 7: if (a.empty()) return; say("s%ld.pop_back()", w); x.pop_back(); a.pop_back(); break;
    case 8: say("s%ld.clear()", w); x.clear(); a.clear(); break;
    case 9: if ((r >> 10) % 8 == 0) { size_t c = S::npos - (r >> 14) % 3; say("s%ld.reserve(npos-%ld)", w, S::npos - c); try { x.reserve(c); REQ(x.capacity() >= c); } catch (const std::exception &) {} }
      else { int c = r % 30; say("s%ld.reserve(%ld)", w, c); x.reserve(c); REQ((int)x.capacity() >= c); } break;
    case 10: say("s%ld = s%ld", w, o); REQ(&(x = s[o]) == &x); a = m[o]; break;
    case 11: say("s%ld = itself", w); { S &y = x; REQ(&(x = y) == &x); } break;
    case 12: say("s%ld = cstr", w); g_hist += show(t); REQ(&(x = t.c_str()) == &x); a = t.c_str(); break;
    case 13: { size_t j = r % (a.size() + 1); say("s%ld = own c_str+%ld", w, j); x = x.c_str() + j; a = M(a.c_str() + j); } break;
    case 14: say("copy of s%ld", w); { S c(x); same(c, a); REQ(c.data() != x.data()); c.push_back('q'); } break;
    case 15: say("from cstr"); g_hist += show(t); { S c(t.c_str()); M u; u = t.c_str(); same(c, u); } break;
    case 16: say("from range"); g_hist += show(t); { S c(In{t.data()}, In{t.data() + t.size()}); same(c, t); } break;
    case 17: { if (a.size() < 2) return; int j = r % a.size(); say("s%ld[%ld]='x'", w, j); x[j] = 'x'; a[j] = 'x'; } break;
    }
    if (a.size() > (size_t)cap) { x.clear(); a.clear(); }
    same(s[0], m[0]); same(s[1], m[1]); REQ(s[0].data() != s[1].data());
  }
};
constexpr int K = 18;
template <class C> static void wides(const char *nm, int cases) {   // other character types against std::basic_string
  using W = cest::basic_string<C>; using X = std::basic_string<C>; const C al[] = {C('a'), C('b'), C(0), C(sizeof(C) > 1 ? 0x161 : 0x81), C(-1)};
  for (int k = 0; k < cases; k++) { Rng r(seed() * 31337 + k); g_hist = nm; say(" case %ld", k); auto mk = [&](int n) { X t; for (int i = 0; i < n; i++) t += al[r.below(5)]; return t; };
    X t = mk(r.below(20)); W x(t.data(), t.size()); X a = t;
    for (int s = 0; s < 12; s++) { X u = mk(r.below(6)); W y(u.data(), u.size());
      switch (r.below(9)) { case 0: x.push_back(al[1]); a.push_back(al[1]); break; case 1: x += al[3]; a += al[3]; break; case 2: x.append(u.data(), u.size()); a.append(u); break; case 3: x.append(y); a.append(u); break;
        case 4: x = u.c_str(); a = u.c_str(); break; case 5: if (!a.empty()) { x.pop_back(); a.pop_back(); } break; case 6: x.reserve(r.below(50)); break; case 7: { W c(x); x = c; } break; case 8: if (r.below(4) == 0) { x = y; a = u; } break; }
      if (content) { REQ(x.size() == a.size()); for (size_t i = 0; i < a.size(); i++) REQ(x[i] == a[i]); REQ(x.c_str()[a.size()] == C()); }
      if (search) { X n = a.substr(r.below(a.size() + 1), r.below(4)); W z(n.data(), n.size()); for (size_t p = 0; p <= a.size() + 1; p++) { REQ(x.find(z, p) == a.find(n, p)); REQ(x.find(y, p) == a.find(u, p)); REQ(x.find(u.c_str(), p) == a.find(u.c_str(), p)); REQ(x.find(al[3], p) == a.find(al[3], p)); }
        REQ(sg(x.compare(y)) == sg(a.compare(u))); REQ((x == y) == (a == u)); REQ((x < y) == (a < u)); REQ((x != y) == (a != u)); REQ(sg(x.compare(u.c_str())) == sg(a.compare(u.c_str()))); } }
    g_cases++; }
}
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "C04")) content = false;
  if (argc > 1 && !strcmp(argv[1], "C03")) search = false;
  g_hist.reserve(1 << 20);
  static const char al[] = {'a', 'b', 0, (char)0xff};
  // all pairs of short strings over {a, b, NUL, 0xff}
  int NA = 5, NB = 3; std::vector<M> as, bs;
  for (int n = 0; n <= NA; n++) for (int x = 0; x < 1 << (n < 5 ? 2 * n : n); x++) { M m; for (int i = 0; i < n; i++) m += n < 5 ? al[x >> (2 * i) & 3] : al[x >> i & 1]; as.push_back(m); if (n <= NB) bs.push_back(m); }
  if (search) for (auto &a : as) for (auto &b : bs) if (a.size() < 4 || b.size() < 3 || (a.size() == 5)) searches(a, b);
  if (search) { Rng r(seed()); int N = thorough() ? 100000 : 5000;   // random longer strings over a small alphabet: needle taken from the hay or nearly so
    for (int t = 0; t < N; t++) { int n = r.below(60); M a; for (int i = 0; i < n; i++) a += "aab\0"[r.below(4)]; size_t j = r.below(n + 1), k = r.below(n - j + 1); M b = a.substr(j, k < 12 || r.below(2) ? k : 12); if (b.size() && r.below(3) == 0) b[r.below(b.size())] ^= 1; searches(a, b); } }
  if (search) for (int n : {0, 1, 7, 127, 128, 255, 256, 257, 300, 511, 512, 32768, 65535, 65536}) for (int k : {0, 1, 127, 128, 129, 255, 256, 257, 384, 512, 32768, 65535, 65536, 65537}) { // one a prefix of the other
    M a(n, 'p'), b(n + k, 'p'); S x(a.data(), a.size()), y(b.data(), b.size()); g_hist = "prefix"; say(" n=%ld longer by %ld", n, k); int c = sg(a.compare(b)); REQ(sg(x.compare(y)) == c); REQ(sg(y.compare(x)) == -c); REQ(sg(x.compare(b.c_str())) == c); REQ(sg(y.compare(a.c_str())) == -c); REQ((x < y) == (c < 0)); REQ((x == y) == !c); REQ((x != y) == !!c); }
  if (search) { // long ones
    for (int n : {31, 32, 33, 64, 100, 255, 256, 257, 1000, 70000}) for (int d : {0, 1, n / 2, n - 1}) { M a(n, 'a'); a[d] = 'b'; M b(n / 2, 'a'); S x(a.data(), n), y(b.data(), b.size());
      g_hist = "a*n with b at d, needle a*(n/2)"; say(" n=%ld d=%ld", n, d); REQ(x.find(y) == a.find(b)); REQ(x.find('b') == a.find('b')); REQ(x.find("ab") == a.find("ab")); M b2(a); S z(b2.data(), n); REQ(x == z); b2[n - 1] ^= (char)0x80; S u(b2.data(), n); REQ(!(x == u)); REQ(sg(x.compare(u)) == sg(a.compare(b2))); REQ(!(x == b2.c_str())); REQ(sg(x.compare(b2.c_str())) == sg(a.compare(b2))); REQ((x < b2.c_str()) == (a < b2)); REQ(x == a.c_str()); } }
  auto run = [&](auto f) { g_hist.clear(); long l0 = g_live; { Sim s; f(s); } REQ(g_live == l0); g_cases++; };
  if (content) {
    for (int pre = 0; pre < 5; pre++) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) for (int q = 0; q < 4; q++)
      run([&](Sim &s) { for (int t = 0; t < pre; t++) s.op(t % 3 == 2 ? 3 : 0, (3u << 20) + 2 * t + 8); s.op(i, (q * 77773u << 8) + 6 + 2 * q); s.op(j, (q * 5557u << 9) + 4 * q); s.op(0, 2); });
    Rng r(seed()); int N = thorough() ? 60000 : 4000;
    for (int t = 0; t < N; t++) run([&](Sim &s) { int len = 5 + r.below(30); for (int i = 0; i < len; i++) { int k = r.below(K + 4); s.op(k >= K ? 0 : k, r.next() >> 8); } });
    for (int n : {30, 31, 32, 33, 63, 64, 65, 255, 256, 257, 1000, 70000}) { g_hist.clear(); say("large n=%ld", n); M a; S s; for (int i = 0; i < n; i++) { a += (char)(i * 7); s.push_back((char)(i * 7)); }
      same(s, a); S c(s); same(c, a); S d; d = s; same(d, a); d += s; a += M(a); same(d, a); d = "x"; same(d, "x"); M b(a); S e(In{b.data()}, In{b.data() + b.size()}); same(e, b); e = s; e.append(e); same(e, a); S f(b.data(), b.size()); same(f, b); e = f; e.reserve(5 * n); same(e, b); e = e; e = e.c_str() + n / 2; same(e, M(b.c_str() + n / 2)); g_cases++; }
  }
  { int q = thorough() ? 60 : 4; wides<wchar_t>("wstring", 300 * q); wides<char16_t>("u16string", 300 * q); wides<char32_t>("u32string", 100 * q); wides<char8_t>("u8string", 100 * q); }
  printf("PASS %ld cases\n", g_cases);
}
