// C24: the same programs evaluated by the compiler (as constant expressions) and at run time must give the same results.
// A program that is not accepted in a constant expression says nothing and is skipped.
#include <utility>
#include <limits>
#include <new>
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <cest/deque.hpp>
#include <cest/queue.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/memory.hpp>
#include <cest/functional.hpp>
#include <cest/iostream.hpp>
#include <cest/sstream.hpp>
#include <cest/cstdio.hpp>
#include <cest/cctype.hpp>
#include <cest/swap.hpp>
#include <cest/cmath.hpp>
#include <cest/cstdlib.hpp>
#include <complex>
#include <bit>
#include "common.hpp"
#include <cest/complex.hpp>
using namespace vp;
using H = uint64_t;
struct G { H s, h = 1469598103934665603ull; constexpr explicit G(int k) : s(0x9E3779B97F4A7C15ull * (k + 1)) {}
  constexpr H next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } constexpr int below(int n) { return next() % n; }
  constexpr void add(H x) { h = (h ^ x) * 1099511628211ull; h ^= h >> 29; } constexpr void add(double d) { add(std::bit_cast<H>(d)); } };
template <class C> constexpr void all(G &g, const C &c) { for (auto i = c.begin(); i != c.end(); ++i) g.add(H(*i)); }
template <int S> constexpr H p_vector() { G g(S); cest::vector<int> v, w; for (int i = 0; i < 60; i++) { switch (g.below(8)) {
  case 0: case 1: case 2: v.push_back(g.below(99)); break; case 3: if (!v.empty()) v.pop_back(); break; case 4: v.reserve(g.below(40)); break; case 5: w = v; break; case 6: v.resize(g.below(30)); break; case 7: if (g.below(3) == 0) v.clear(); break; }
  g.add(H(v.size())); g.add(H(v.capacity())); all(g, v); all(g, w); g.add(H(v == w)); if (!v.empty()) { g.add(H(v.front())); g.add(H(v.back())); v[v.size() / 2] += 3; } } cest::vector<int> x{ 3, 4, 5 }, y(x); all(g, y); g.add(H(y.capacity())); return g.h; }
template <int S> constexpr H p_string() { G g(S); cest::string s, t("abc"); for (int i = 0; i < 50; i++) { switch (g.below(8)) {
  case 0: case 1: s.push_back('a' + g.below(26)); break; case 2: s += t; break; case 3: s = t; break; case 4: s.reserve(g.below(60)); break; case 5: s += "hello"; break; case 6: t = cest::string("some text that is long enough to be stored elsewhere") ; break; case 7: if (s.size() > 40) s = cest::string("x"); break; }
  g.add(H(s.size())); g.add(H(s.capacity())); for (size_t k = 0; k <= s.size(); k++) g.add(H((unsigned char)s.data()[k])); g.add(H(s == t));  cest::string u(s); u += t; g.add(H(u.size())); for (size_t k = 0; k < u.size(); k++) g.add(H((unsigned char)u[k])); } return g.h; }
constexpr H sg(int x) { return x < 0 ? 1 : x > 0 ? 2 : 3; }
template <class W, int S> constexpr H p_text() { using C = cest::basic_string<W>; G g(S); W t[9] = {}; for (int i = 0; i < 25; i++) { int n = g.below(5), m = g.below(9); for (W &x : t) x = W(g.below(3) ? g.below(3) : g.below(700)); C a(t, n), b(t + n % 3, m % 6), c(a); c += b; C d; for (int k = 0; k < n; k++) d.push_back(t[k]);
  g.add(sg(a.compare(b))); g.add(sg(b.compare(a))); if constexpr (requires { requires std::bool_constant<(C() == C())>::value; }) { g.add(H(a == b)); g.add(H(a == d)); } g.add(H(a < b)); g.add(sg(a.compare(d))); g.add(H(c.size())); g.add(H(c.capacity())); g.add(H(d.capacity())); for (size_t k = 0; k <= c.size(); k++) g.add(H(c.data()[k])); t[8] = 0; g.add(H(c.find(b.data(), 0, b.size()))); g.add(H(c.find(t + 7))); g.add(sg(a.compare(t + 6))); C e; e.append(t, m); for (size_t k = 0; k <= e.size(); k++) g.add(H(e.data()[k])); e = t + 5; g.add(H(e.size())); } return g.h; }
template <int S> constexpr H p_wstring() { return p_text<wchar_t, S>() * 31 + p_text<char32_t, S>(); }
template <int S> constexpr H p_cstring() { return p_text<char, S>() * 31 + p_text<char8_t, S>(); }
template <int S> constexpr H p_deque() { G g(S); cest::deque<int> d, e; for (int i = 0; i < 70; i++) { switch (g.below(7)) {
  case 0: case 1: d.push_back(i); break; case 2: case 3: d.push_front(i); break; case 4: if (!d.empty()) d.pop_back(); break; case 5: if (!d.empty()) d.pop_front(); break; case 6: if (g.below(6) == 0) { if (g.below(2)) d.clear(); else e = d; } break; }
  g.add(H(d.size())); all(g, d); if (!d.empty()) { g.add(H(d.front())); g.add(H(d.back())); } } for (int i = 0; i < 300; i++) { d.push_back(i); e.push_front(i); } all(g, d); all(g, e); cest::deque<int> f(e); g.add(H(f.size())); return g.h; }
template <int S> constexpr H p_queue() { G g(S); cest::queue<int> q; for (int i = 0; i < 80; i++) { if (g.below(3)) q.push(g.below(50)); else if (!q.empty()) q.pop(); g.add(H(q.size())); if (!q.empty()) { g.add(H(q.front())); g.add(H(q.back())); } } return g.h; }
template <int S> constexpr H p_list() { G g(S); cest::list<int> l, m; for (int i = 0; i < 70; i++) { auto it = l.begin(); for (int k = l.size() ? g.below(l.size() + 1) : 0; k-- > 0;) ++it; switch (g.below(9)) {
  case 0: l.push_back(i); break; case 1: l.push_front(i); break; case 2: l.insert(it, i); break; case 3: l.emplace(it, i); break; case 4: if (!l.empty()) l.pop_back(); break; case 5: if (!l.empty()) l.pop_front(); break; case 6: if (it != l.end()) l.erase(it); break; case 7: m = l; break; case 8: if (g.below(9) == 0) l.clear(); else l.emplace_back(i); break; }
  g.add(H(l.size())); all(g, l); all(g, m); } return g.h; }
template <int S> constexpr H p_flist() { G g(S); cest::forward_list<int> l, m; for (int i = 0; i < 50; i++) { auto it = l.before_begin(); switch (g.below(5)) {
  case 0: case 1: l.push_front(i); break; case 2: l.insert_after(it, i); break; case 3: m = l; break; case 4: if (!l.empty()) l.pop_front(); break; } all(g, l); all(g, m); g.add(H(l.empty())); } return g.h; }
template <int S> constexpr H p_set() { G g(S); cest::set<int> s, t; for (int i = 0; i < 60; i++) { int k = g.below(80); auto r = s.insert(k); g.add(H(r.second)); g.add(H(*r.first)); g.add(H(s.size())); int j = g.below(80); auto f = s.find(j); g.add(f == s.end() ? H(1000) : H(*f)); if (i % 7 == 0) { all(g, s); t = s; all(g, t); } if (i == 40 && S % 2) s.clear(); } cest::set<int> u(s); all(g, u); return g.h; }
template <int S> constexpr H p_map() { G g(S); cest::map<int, int> s, t; for (int i = 0; i < 60; i++) { int k = g.below(80); auto r = s.insert({ k, i }); g.add(H(r.second)); g.add(H(r.first->second)); g.add(H(s.size())); auto f = s.find(g.below(80)); g.add(f == s.end() ? H(1000) : H(f->second)); if (i % 7 == 0) { for (auto &x : s) { g.add(H(x.first)); g.add(H(x.second)); } t = s; for (auto &x : t) g.add(H(x.second)); } if (i == 40 && S % 2) s.clear(); } return g.h; }
struct Ct { int *n; int v; constexpr Ct(int *n, int v) : n(n), v(v) { ++*n; } constexpr Ct(const Ct &o) : n(o.n), v(o.v) { ++*n; } constexpr virtual ~Ct() { --*n; } };
template <int S> constexpr H p_uptr() { G g(S); int n = 0; { cest::unique_ptr<Ct> a(new Ct(&n, S)), b; for (int i = 0; i < 20; i++) { switch (g.below(5)) { case 0: a.reset(new Ct(&n, i)); break; case 1: b = std::move(a); break; case 2: a.reset(); break; case 3: std::swap(a, b); break; case 4: delete b.release(); break; } g.add(H(n)); g.add(H(bool(a))); g.add(H(bool(b))); if (a) g.add(H(a->v)); if (b) g.add(H(b->v)); } } g.add(H(n)); auto m = cest::make_unique<Ct>(&n, 4); g.add(H(m->v)); return g.h; }
struct CtDel { int *k; constexpr void operator()(Ct *p) const { ++*k; delete p; } };
template <int S> constexpr H p_sptr() { G g(S); int n = 0, k = 0; { cest::shared_ptr<Ct> a(new Ct(&n, S)), b, c; for (int i = 0; i < 25; i++) { switch (g.below(7)) { case 0: a = cest::shared_ptr<Ct>(new Ct(&n, i)); break; case 1: b = a; break; case 2: c = b; break; case 3: a = cest::shared_ptr<Ct>(); break; case 4: b = cest::shared_ptr<Ct>(new Ct(&n, i), CtDel{ &k }); break; case 5: a = c; break; case 6: { cest::shared_ptr<Ct> d(a, b.get()); g.add(H(d.use_count())); } break; }
  g.add(H(n)); g.add(H(k)); g.add(H(a.use_count())); g.add(H(b.use_count())); g.add(H(c.use_count())); if (a) g.add(H(a->v)); if (b) g.add(H(b->v)); } } g.add(H(n)); g.add(H(k)); return g.h; }
template <int S> constexpr H p_func() { G g(S); int acc = 0; cest::function<int(int, int)> f([&](int a, int b) { acc += a; return a * b + S; }); cest::function<void(int)> v([&acc, k = 0](int x) mutable { k += x; acc += k; }); cest::function<int(const int &)> r([](const int &x) { return x + 1; }); for (int i = 0; i < 20; i++) { g.add(H(f(i, g.below(9)))); v(i); g.add(H(acc)); g.add(H(r(i))); } return g.h; }
template <int S> constexpr H p_cctype() { G g(S); for (int i = S * 43 - 5; i < S * 43 + 43 && i < 260; i++) { g.add(H(cest::isalnum(i))); g.add(H(cest::isupper(i))); } return g.h; }
template <int S> constexpr H p_swap() { G g(S); int a = S, b = 7, c = 9, d = -1; nary::swap(a, b); g.add(H(a * 100 + b)); nary::swap(a, b, c, d); g.add(H(a)); g.add(H(d)); nary::swapr(a, b, c); g.add(H(b)); g.add(H(c)); double x = 1.5, y = S, z = 3; nary::swapr(x, y, z); g.add(x); g.add(y); cest::string s("first"), t("second"); nary::swap(s, t); g.add(H(s.size())); return g.h; }
template <int S> constexpr H p_cmath() { G g(S); for (int i = 0; i < 25; i++) { double x = (g.below(20001) - 10000) / 977.0; g.add(H(cest::floor(x))); g.add(H(cest::ceil(x))); g.add(double(cest::abs(x))); g.add(double(cest::fabs(x))); g.add(cest::pow(x, g.below(9))); g.add(cest::sqrt(x * x + i)); } return g.h; }
template <int S> constexpr H p_exp() { G g(S); for (int i = 0; i < 6; i++) { double x = (g.below(20001) - 10000) / 1977.0; g.add(cest::sin(x)); g.add(cest::cos(x)); g.add(cest::exp(x)); g.add(cest::atan(x)); g.add(cest::sinh(x)); g.add(cest::cosh(x)); g.add(cest::log(x * x + 0.5)); g.add(cest::atan2(x, 0.3 - i)); } return g.h; }
template <int S> constexpr H p_complex() { using C = cest::complex<double>; G g(S); C a(S, 2.5), b(1.25, -S); for (int i = 0; i < 15; i++) { switch (g.below(7)) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= (b == C(0, 0) ? C(1, 1) : b); break; case 4: b = a * 0.5; break; case 5: a = b - 2.0; break; case 6: b = C(g.below(7), g.below(7) - 3.5); break; } a = cest::norm(a) > 1e6 ? C(1, 2) : a; g.add(a.real()); g.add(a.imag()); g.add(cest::norm(b)); g.add(cest::conj(a).imag()); g.add(H(a == b)); } return g.h; }
template <int S> constexpr H p_stream() { G g(S); char t[24] = {}; for (int i = 0; i < 24; i++) t[i] = char(g.below(256)); cest::istringstream s(cest::string(t, 5 + S)); cest::stringstream u(cest::string(t, 24)); char d[30] = {};
  for (int i = 0; i < 25; i++) { char c = 0; switch (g.below(5)) { case 0: case 1: s.get(c); break; case 2: s.read(d, g.below(6)); break; case 3: s.unget(); break; case 4: s.clear(); break; } g.add(H((unsigned char)c)); g.add(H((unsigned char)d[0])); g.add(H(s.gcount())); g.add(H(s.rdstate())); u.get(c); g.add(H((unsigned char)c)); g.add(H(u.good())); } return g.h; }
template <int S> constexpr H p_file() { G g(S); char t[20] = {}, d[30] = {}; for (int i = 0; i < 20; i++) t[i] = char(g.below(256)); cest::FILE *f = cest::fmemopen(t, 3 * S + 1, "r"); for (int i = 0; i < 6; i++) { g.add(H(cest::fread(d, 1, g.below(6), f))); for (int k = 0; k < 6; k++) g.add(H((unsigned char)d[k])); } g.add(H(cest::fclose(f))); return g.h; }
static long skipped = 0;
template <auto F> concept Constant = requires { typename std::integral_constant<H, F()>; };
template <auto F> static void both(const char *nm, int s) { g_hist = nm; say(": program %ld evaluated as a constant expression and at run time", s); g_cases++;
  if constexpr (Constant<F>) { constexpr H c = std::integral_constant<H, F()>::value; H (*volatile f)() = F; H r = f(); REQ(c == r); } else { printf("SKIPPED (not a constant expression): %s program %d\n", nm, s); skipped++; } }
#define B(n) both<n<S>>(#n + 2, S)
template <int S> static void part() { B(p_vector); B(p_string); B(p_wstring); B(p_cstring); B(p_deque); B(p_queue); B(p_list); B(p_flist); B(p_set); B(p_map); B(p_uptr); B(p_sptr); B(p_func); B(p_cctype); B(p_swap); B(p_cmath); B(p_exp); B(p_complex); B(p_stream); B(p_file); }
int main() { part<0>(); part<1>(); part<2>(); part<3>(); part<4>(); part<5>(); printf("PASS %ld cases, %ld skipped\n", g_cases, skipped); }
