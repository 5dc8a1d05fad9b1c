// C25: every allocation of every operation made to fail once; the container must be unchanged (insertions) or valid (assignments), and nothing may leak.
#include <utility>
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <cest/deque.hpp>
#include <cest/queue.hpp>
#include <cest/list.hpp>
#include <cest/forward_list.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
#include <cest/memory.hpp>
#include <cest/functional.hpp>
#include <iterator>
#include <sstream>
#include "common.hpp"
using namespace vp;
template <class T> struct Mk { static T mk(int v) { return T(v); } };
template <> struct Mk<std::string> { static std::string mk(int v) { return std::to_string(v % 1000); } };   // small: copies obtain no storage
using Snap = std::vector<std::string>;
static std::string str(const Trk &t) { t.chk(); return std::to_string(t.v); }
static std::string str(int x) { return std::to_string(x); }
static std::string str(const std::string &s) { return s; }
template <class A, class B> static std::string str(const std::pair<A, B> &p) { return str(p.first) + ":" + str(p.second); }
template <class C> static Snap snap(const C &c) { Snap r; for (auto &x : c) r.push_back(str(x)); return r; }
template <class T, class C> static Snap snap(const cest::queue<T, C> &q) { Snap r; r.push_back(std::to_string(q.size())); if (!q.empty()) { r.push_back(str(q.front())); r.push_back(str(q.back())); } return r; }
static Snap snap(const cest::string &s) { REQ(s.data()[s.size()] == 0); REQ(s.size() <= s.capacity()); return { std::string(s.data(), s.size()) }; }
template <class C> static size_t bytes(const C &) { return 0; }
// op(c) is run with its k-th allocation failing, for k = 0, 1, ... until it succeeds
template <class Make, class Op, class Use> static void tryop(const char *nm, size_t n, const char *op, bool strong, Make make, Op o, Use use) {
  for (long k = 0; k < 200; k++) {
    g_cases++; g_hist = nm; g_hist += ": "; say("%ld elements", n); g_hist += op; say(" with allocation %ld failing", k); long live0 = Trk::live, mem0; bool threw = false;
    mem0 = L.live;
    { auto c = make(n); Snap before = snap(*c); long l1 = L.live, t1 = Trk::live;
      fail_in = k;
      try { o(*c); fail_in = -1; } catch (const std::bad_alloc &) { threw = true; } catch (const std::length_error &) { threw = true; }
      fail_in = -1;
      Snap after = snap(*c);
      if (threw && strong) { REQ(after == before); REQ(L.live - (long)0 >= 0); REQ(Trk::live == t1); (void)l1; }
      use(*c); snap(*c); }
    REQ(Trk::live == live0); g_hist.shrink_to_fit(); (void)mem0;
    if (!threw) return;
  }
}
// storage: counted over a whole scenario (containers of the test itself come and go inside it)
template <class F> static void balanced(const char *nm, F f) { { std::string h; h.swap(g_hist); } long m = L.live, t = Trk::live; f(); { std::string h; h.swap(g_hist); } if (L.live != m || Trk::live != t) { g_hist = nm; fail("no storage and no element leaks", __FILE__, __LINE__); } }
#define OP(nm, strong, body) balanced(name.c_str(), [&] { tryop(name.c_str(), n, nm, strong, make, [&](C &c) { body; }, use); })
template <class C, class Make, class Use> static void copies(const std::string &name, size_t n, Make make, Use use, bool strong_assign) {
  OP("copy construction", true, C d(c); fail_in = -1; REQ(snap(d) == snap(c)));
  for (size_t m : { size_t(0), size_t(3), n + 5 }) { OP("assigning to it", strong_assign, auto s = [&] { long f = fail_in; fail_in = -1; auto s = make(m); fail_in = f; return s; }(); c = *s; fail_in = -1; REQ(snap(c) == snap(*s))); }
}
template <class T> static void vec(std::string name, size_t n) {
  using C = cest::vector<T>; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) c->push_back(Mk<T>::mk(i)); return c; };
  auto use = [](C &c) { c.push_back(Mk<T>::mk(7)); REQ(c.back() == Mk<T>::mk(7)); };
  T x = Mk<T>::mk(5);
  OP("push_back", true, c.push_back(x)); OP("push_back(move)", true, T y(x); try { c.push_back(std::move(y)); } catch (...) { REQ(y == x); throw; }); OP("reserve", true, c.reserve(n + 9); REQ(c.capacity() >= n + 9)); OP("reserve too much", true, c.reserve(size_t(-1) / 2)); OP("resize", true, c.resize(n + 20));
  if (n) OP("own push_back", true, c.push_back(c[n / 2])); OP("constructor(count)", true, C d(n); REQ(d.size() == n)); OP("constructor(list)", true, (C{ x, x, x, x, x }));
  copies<C>(name, n, make, use, true);
}
static void strs(std::string name, size_t n) {
  using C = cest::string; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) c->push_back('a' + i % 26); return c; };
  auto use = [](C &c) { c.push_back('z'); REQ(c.back() == 'z'); };
  std::string s(n + 3, 'q'); cest::string o(s.c_str());
  OP("push_back", true, c.push_back('x')); OP("append", true, c.append(s.c_str(), s.size())); OP("+=", true, c += o); OP("+= char", true, c += 'c'); OP("+= itself", true, c += c); OP("reserve", true, c.reserve(n + 50); REQ(c.capacity() >= n + 50));
  OP("reserve(npos)", true, c.reserve(C::npos); fail("nothing was thrown", __FILE__, __LINE__)); OP("reserve(npos-1)", true, c.reserve(C::npos - 1); fail("nothing was thrown", __FILE__, __LINE__)); OP("assign", true, c = s.c_str()); OP("constructor(char*)", true, C d(s.c_str()); REQ(d == o)); OP("constructor(n)", true, C d(s.c_str(), n)); std::istringstream is(s); OP("constructor(range)", true, is.clear(); is.seekg(0); C d((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>()); REQ(d == o)); OP("constructor", true, C d); OP("constructor(allocator)", true, C d{std::allocator<char>()}); 
  copies<C>(name, n, make, use, true);
}
template <class T> static void deqs(std::string name, size_t n) {
  using C = cest::deque<T>; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) if (i % 3) c->push_front(Mk<T>::mk(i)); else c->push_back(Mk<T>::mk(i)); return c; };
  auto use = [](C &c) { for (int i = 0; i < 300; i++) { c.push_back(Mk<T>::mk(i)); c.push_front(Mk<T>::mk(i)); } for (int i = 299; i >= 0; i--) { REQ(c.back() == Mk<T>::mk(i)); REQ(c.front() == Mk<T>::mk(i)); c.pop_back(); c.pop_front(); } };
  T x = Mk<T>::mk(5);
  // a push obtains storage only when a chunk is full: repeat until one fails
  OP("push_back", true, c.push_back(x)); OP("push_front", true, c.push_front(x)); OP("push_back(move)", true, T y(x); c.push_back(std::move(y))); OP("push_front(move)", true, T y(x); c.push_front(std::move(y)));
  OP("push_back many", false, for (int i = 0; i < 400; i++) { Snap b = snap(c); long f = fail_in; try { c.push_back(x); } catch (...) { long g = fail_in; fail_in = -1; REQ(snap(c) == b); fail_in = g; throw; } (void)f; });
  OP("constructor", true, C d); OP("constructor(list)", true, (C{ x, x, x })); copies<C>(name, n, make, use, false);
}
template <class C> static void queues(std::string name, size_t n) {
  using T = typename C::value_type; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) c->push(Mk<T>::mk(i)); return c; };
  auto use = [](C &c) { c.push(Mk<T>::mk(7)); REQ(c.back() == Mk<T>::mk(7)); };
  T x = Mk<T>::mk(5); OP("push", true, c.push(x)); OP("push(move)", true, T y(x); c.push(std::move(y))); OP("constructor", true, C d); copies<C>(name, n, make, use, false);
}
template <class T> static void lists(std::string name, size_t n) {
  using C = cest::list<T>; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) c->push_back(Mk<T>::mk(i)); return c; };
  auto use = [](C &c) { size_t k = c.size(); c.push_back(Mk<T>::mk(7)); c.push_front(Mk<T>::mk(8)); REQ(c.size() == k + 2); c.pop_front(); c.pop_back(); };
  T x = Mk<T>::mk(5); auto at = [&](C &c) { auto i = c.begin(); for (size_t k = 0; k < n / 2; k++) ++i; return i; };
  OP("push_back", true, c.push_back(x)); OP("push_front", true, c.push_front(x)); OP("push_back(move)", true, T y(x); try { c.push_back(std::move(y)); } catch (...) { REQ(y == x); throw; }); OP("push_front(move)", true, T y(x); try { c.push_front(std::move(y)); } catch (...) { REQ(y == x); throw; });
  OP("insert", true, c.insert(at(c), x)); OP("insert(move)", true, T y(x); try { c.insert(at(c), std::move(y)); } catch (...) { REQ(y == x); throw; }); OP("emplace", true, c.emplace(at(c), Mk<T>::mk(1))); OP("emplace_back", true, c.emplace_back(Mk<T>::mk(1))); OP("emplace_front", true, c.emplace_front(Mk<T>::mk(1)));
  copies<C>(name, n, make, use, false);
}
template <class T> static void flists(std::string name, size_t n) {
  using C = cest::forward_list<T>; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) c->push_front(Mk<T>::mk(i)); return c; };
  auto use = [](C &c) { c.push_front(Mk<T>::mk(7)); REQ(c.front() == Mk<T>::mk(7)); };
  T x = Mk<T>::mk(5); auto at = [&](C &c) { auto i = c.before_begin(); for (size_t k = 0; k < n / 2; k++) ++i; return i; };
  OP("push_front", true, c.push_front(x)); OP("push_front(move)", true, T y(x); try { c.push_front(std::move(y)); } catch (...) { REQ(y == x); throw; }); OP("insert_after", true, c.insert_after(at(c), x));
  copies<C>(name, n, make, use, true);
}
template <class K> static K key(int i) { return Mk<K>::mk(i * 37 % 101); }
template <class T> static void sets(std::string name, size_t n) {
  using C = cest::set<T>; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) c->insert(key<T>(i)); return c; };
  auto use = [](C &c) { for (int i = 0; i < 101; i++) c.insert(key<T>(i)); REQ(c.size() >= 101); size_t k = 0; for (auto it = c.begin(); it != c.end(); ++it) k++; REQ(k == c.size()); };
  T x = Mk<T>::mk(105), y = key<T>(n); OP("insert", true, c.insert(x)); OP("insert", true, c.insert(y)); OP("insert(hint)", true, c.insert(c.begin(), y)); copies<C>(name, n, make, use, false);
}
template <class T> static void maps(std::string name, size_t n) {
  using C = cest::map<T, T>; auto make = [](size_t n) { auto c = std::make_unique<C>(); for (size_t i = 0; i < n; i++) c->insert({ key<T>(i), Mk<T>::mk(i) }); return c; };
  auto use = [](C &c) { for (int i = 0; i < 101; i++) c.insert({ key<T>(i), Mk<T>::mk(i) }); size_t k = 0; for (auto it = c.begin(); it != c.end(); ++it) k++; REQ(k == c.size()); REQ(k >= 101); };
  std::pair<const T, T> x(Mk<T>::mk(105), Mk<T>::mk(1)), y(key<T>(n), Mk<T>::mk(2)); OP("insert", true, c.insert(x)); OP("insert", true, c.insert(y)); copies<C>(name, n, make, use, false);
}
template <class T> static void all(std::string t) {
  for (size_t n : { 0, 1, 2, 3, 4, 7, 8, 9, 16, 31, 60 }) {
    vec<T>("vector<" + t + ">", n); lists<T>("list<" + t + ">", n); flists<T>("forward_list<" + t + ">", n); sets<T>("set<" + t + ">", n); maps<T>("map<" + t + ">", n);
    queues<cest::queue<T>>("queue<" + t + ">", n); queues<cest::queue<T, cest::list<T>>>("queue<" + t + ", list>", n); if (t == "int") strs("string", n);
  }
  for (size_t n = 0; n < 110; n += thorough() ? 1 : 5) deqs<T>("deque<" + t + ">", n);
  for (size_t n : { 126, 127, 128, 129, 255, 256, 257, 383, 384, 385, 512, 600, 767, 768, 769 }) deqs<T>("deque<" + t + ">", n);
}
// shared_ptr and function: constructing them with every allocation failing once
static long dels = 0;
struct Del { Trk tag{1}; void operator()(Trk *p) const { tag.chk(); dels++; delete p; } void operator()(std::nullptr_t) const { dels++; } };
struct ADel { void operator()(Trk *p) const { dels++; delete[] p; } };
template <class F> static void ctor(const char *nm, F f) {
  balanced(nm, [&] { for (long k = 0; k < 50; k++) {
    g_cases++; g_hist = nm; say(" with allocation %ld failing", k); bool threw = false; dels = 0;
    f(k, threw); fail_in = -1;
    if (threw && k > 20) fail("still failing", __FILE__, __LINE__);
    if (!threw) { if (!k) fail("nothing was allocated", __FILE__, __LINE__); return; } } fail("never succeeds", __FILE__, __LINE__); });
}
#define TRY(what) { fail_in = k; try { what; fail_in = -1; } catch (const std::bad_alloc &) { threw = true; } fail_in = -1; }
static void owners() {
  ctor("shared_ptr(new T)", [](long k, bool &threw) { long t = Trk::live; Trk *p = new Trk(4); TRY(cest::shared_ptr<Trk> s(p); REQ(s.get() == p && s.use_count() == 1); fail_in = -1;) REQ(Trk::live == t); });
  ctor("shared_ptr(new T, deleter)", [](long k, bool &threw) { Trk *p = new Trk(4); TRY(cest::shared_ptr<Trk> s(p, Del{}); REQ(s.get() == p && s.use_count() == 1); fail_in = -1;) REQ(dels == 1); });
  ctor("shared_ptr((T*)0, deleter)", [](long k, bool &threw) { TRY(cest::shared_ptr<Trk> s((Trk *)nullptr, Del{}); REQ(!s && s.use_count() == 1); fail_in = -1;) REQ(dels == 1); });
  ctor("shared_ptr<T[]>(new T[3])", [](long k, bool &threw) { long t = Trk::live; Trk *p = new Trk[3]; TRY(cest::shared_ptr<Trk[]> s(p); REQ(s.get() == p && s.use_count() == 1); fail_in = -1;) REQ(Trk::live == t); });
  ctor("shared_ptr<T[]>(new T[3], deleter)", [](long k, bool &threw) { long t = Trk::live; Trk *p = new Trk[3]; TRY(cest::shared_ptr<Trk[]> s(p, ADel{}); REQ(s.use_count() == 1); fail_in = -1;) REQ(dels == 1); REQ(Trk::live == t); });
  ctor("s = shared_ptr(new T)", [](long k, bool &threw) { long t = Trk::live; { cest::shared_ptr<Trk> s(new Trk(3)); auto *q = s.get(); Trk *p = new Trk(4); TRY(s = cest::shared_ptr<Trk>(p); fail_in = -1;) REQ(Trk::live == t + 1); REQ(s.use_count() == 1); REQ(threw ? s.get() == q && s->v == 3 : s.get() == p && s->v == 4); } REQ(Trk::live == t); });
  ctor("function(f)", [](long k, bool &threw) { long t = Trk::live; { Trk c(5); auto f = [c](int x) { return c.v + x; }; TRY(cest::function<int(int)> g(f); fail_in = -1; REQ(g(2) == 7);) } REQ(Trk::live == t); });
}
int main() { ledger_on = true; owners(); all<Trk>("Trk"); all<int>("int"); all<std::string>("std::string"); ledger_on = false; printf("PASS %ld cases\n", g_cases); }
