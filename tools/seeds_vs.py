TRK = """struct T { static inline int live = 0; int v; unsigned m; T(int x = 0) : v(x), m(77) { live++; } T(const T &o) : v(o.v), m(77) { REQ(o.m == 77); live++; }
  T &operator=(const T &o) { REQ(m == 77 && o.m == 77); v = o.v; return *this; } ~T() { REQ(m == 77); m = 0; live--; } bool operator==(const T &o) const { return v == o.v; } };
"""
SEEDS = [
 dict(id="vec-assign-cap", property="C02", also=["C01"], file="vector.hpp", edits=[("if (other.size() >= m_size) {", "if (other.capacity() >= m_capacity) {")],
  needs="copy assignment from a vector with fewer elements but at least the target's capacity", breaks="the elements beyond the new size are never destroyed (lifetimes no longer exact)",
  demo="#include <cest/vector.hpp>\n" + TRK + "int main() { { cest::vector<T> a, b; for (int i = 0; i < 7; i++) a.push_back(T(i)); b.reserve(64); b.push_back(T(9)); b.push_back(T(8)); a = b; REQ(a.size() == 2 && a[0].v == 9 && a[1].v == 8); } REQ(T::live == 0); }\n"),
 dict(id="vec-eq-prefix", property="C01", file="vector.hpp", edits=[("return (__x.size() == __y.size()\n", "return (__x.size() <= __y.size()\n")],
  needs="comparing a vector with a longer one of which it is a proper prefix", breaks="operator== reports a proper prefix as equal",
  demo="#include <cest/vector.hpp>\nint main() { cest::vector<int> a{1, 2, 3}, b{1, 2, 3, 4}, c{1, 2, 4}; REQ(!(a == b)); REQ(!(b == a)); REQ(!(a == c)); REQ(a == a); }\n"),
 dict(id="vec-resize-tail", property="C02", also=["C01"], file="vector.hpp", edits=[("      for (size_type i = m_size; i < count; i++)\n        std::construct_at(&m_p[i]);", "      for (size_type i = m_size; i < m_capacity; i++)\n        std::construct_at(&m_p[i]);")],
  needs="resize to more elements while the capacity stays larger than the new size", breaks="objects are constructed beyond the size and constructed again by the next push_back",
  demo="#include <cest/vector.hpp>\n" + TRK + "int main() { { cest::vector<T> a; a.reserve(16); a.push_back(T(1)); a.resize(3); REQ(T::live == 3); a.push_back(T(2)); REQ(a.size() == 4 && a[3].v == 2); } REQ(T::live == 0); }\n"),
 dict(id="str-range-full", property="C03", file="string.hpp", edits=[("            m_p = __another;\n            m_capacity = __capacity;", "            m_p = __another;")],
  needs="construction from an iterator range longer than one character, then push_back (or release with the recorded capacity)", breaks="the recorded capacity is stale: characters are written outside the string's storage and it is released with the wrong size",
  demo="#include <cest/string.hpp>\n#include <cstring>\n#include <iterator>\nstruct In { using iterator_category = std::input_iterator_tag; using value_type = char; using difference_type = long; using pointer = const char*; using reference = char; const char *p; char operator*() const { return *p; } In &operator++() { ++p; return *this; } bool operator!=(const In &o) const { return p != o.p; } bool operator==(const In &o) const { return p == o.p; } };\nint main() { const char *t = \"abcdefghijklmnopqrstuvwxyz0123456789\"; for (int n = 0; n <= 36; n++) { cest::string s(In{t}, In{t + n}); REQ((int)s.size() == n); REQ(!memcmp(s.data(), t, n)); REQ(s.c_str()[n] == 0); s.push_back('!'); REQ((int)s.size() == n + 1 && s[n] == '!' && !memcmp(s.data(), t, n)); } }\n"),
 dict(id="str-append-edge", property="C03", file="string.hpp", edits=[("if (len <= this->capacity())", "if (len <= this->capacity() + 1) // as much as was allocated")],
  needs="append of exactly one character more than the free capacity", breaks="the terminator is written one past the string's storage",
  demo="#include <cest/string.hpp>\n#include <cstring>\nint main() { for (int r = 1; r < 40; r++) for (int k = 0; k <= r + 3; k++) { cest::string s; s.reserve(r); cest::string t; for (int i = 0; i < k; i++) t.push_back('a'); s.append(t); REQ((int)s.size() == k && s.c_str()[k] == 0 && s.capacity() >= s.size()); } }\n"),
 dict(id="str-find-skip", property="C04", file="string.hpp", edits=[("      len = last - ++first;", "      first += traits_type::eq(first[count-1], s[count-1]) ? 1 : count; // no match can start before\n      len = last - first;")],
  needs="a needle whose occurrence starts inside a window that matched its first but not its last character", breaks="find skips over the occurrence and returns npos or a later one",
  demo="#include <cest/string.hpp>\nint main() { cest::string h(\"xaaab\"); REQ(h.find(\"aab\") == 2); REQ(cest::string(\"ababac\").find(\"abac\") == 2); REQ(h.find(\"b\") == 4); REQ(h.find(\"q\") == cest::string::npos); }\n"),
 dict(id="str-cmp-unsigned", property="C04", file="string.hpp", edits=[("    const difference_type d = difference_type(n1 - n2);\n\n    if (d > std::numeric_limits<int>::max())\n      return std::numeric_limits<int>::max();\n    else if (d < std::numeric_limits<int>::min())\n      return std::numeric_limits<int>::min();\n    else\n      return int(d);", "    return static_cast<signed char>(n1 - n2);")],
  needs="comparing strings of which one is a prefix of the other and whose lengths differ by 128 or more (or a multiple of 256)", breaks="compare returns the wrong sign or zero",
  demo="#include <cest/string.hpp>\nint main() { cest::string a(\"x\"), b(\"x\"); for (int i = 0; i < 300; i++) { b.push_back('y'); REQ(a.compare(b) < 0); REQ(b.compare(a) > 0); REQ(a < b); REQ(a != b); } }\n"),
]
