"""behaviour-preserving edits of the console output, memory files and constant evaluation: every check must stay quiet"""
RO="runtime_ostream.hpp"; OS="ostream.hpp"; CS="cstdio.hpp"; V="vector.hpp"; S="string.hpp"; TR="cmath.hpp"
R1="""  if (!std::is_constant_evaluated())
  {
    if      (&cest::cout == &os) std::cout << x;
    else if (&cest::cerr == &os) std::cerr << x;
    else if (&cest::clog == &os) std::clog << x;
  }"""
F1="""    const std::size_t len = nbytes;
    char *psz = new char[len+1];
    std::snprintf(psz, len+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(psz, len));
    delete [] psz;
    return nbytes;"""
CC=["C24","C27"]
M=[(f,e,"",p) for f,e,p in [
 (RO,[(R1,"""  if (std::is_constant_evaluated())
    return;

  std::ostream *target = nullptr;
  if      (&cest::cout == &os) target = &std::cout;
  else if (&cest::cerr == &os) target = &std::cerr;
  else if (&cest::clog == &os) target = &std::clog;
  if (target)
    *target << x;""")],CC),
 (RO,[("template <class CharT, class Traits, class T>\nconstexpr void runtime_ostream(","""template <class CharT, class Traits>
std::ostream *std_stream(const basic_ostream<CharT,Traits>& os)
{
  if (&cest::clog == &os) return &std::clog;
  if (&cest::cerr == &os) return &std::cerr;
  return &cest::cout == &os ? &std::cout : nullptr;
}

template <class CharT, class Traits, class T>
constexpr void runtime_ostream("""),(R1,"""  if (!std::is_constant_evaluated())
  {
    if (auto *s = std_stream(os)) (*s) << x;
  }""")],CC),
 (RO,[("runtime_ostream(basic_ostream<CharT,Traits>& os, T x)","runtime_ostream(basic_ostream<CharT,Traits>& os, const T &x)")],CC),
 (RO,[("else if (&cest::cerr == &os) std::cerr << x;\n    else if (&cest::clog == &os) std::clog << x;","else if (&cest::clog == &os) std::clog << x;\n    else if (&cest::cerr == &os) std::cerr << x;")],CC),
 (RO,[("#include <iostream>      // std::cout","#include <type_traits>\n#include <iostream>      // std::cout")],CC),
 (OS,[("""  impl::runtime_ostream(os, std::endl);
  return os;""","""  impl::runtime_ostream(os, std::endl<CharT,Traits>);
  return os;""")],CC),
 (OS,[("""  { return _M_insert(__n); }

  constexpr __ostream_type& operator<<(int value)                             {
    impl::runtime_ostream(*this, value);
    return *this;
  }""","""  { return _M_insert(__n); }

  constexpr __ostream_type& operator<<(int value)                             {
    return put_runtime(value);
  }

  template <typename V>
  constexpr __ostream_type& put_runtime(V value) {
    impl::runtime_ostream(*this, value);
    return *this;
  }""")],CC),
 (OS,[("  { this->init(__sb); }","  { __ios_type::init(__sb); }")],CC),
 (OS,[("    __pf(*this);\n    return *this;\n  }\n\n  // for hex","    static_cast<void>((*__pf)(*this));\n    return *this;\n  }\n\n  // for hex")],CC),
 (CS,[(F1,"""    std::string text(nbytes, '\\0');
    std::snprintf(text.data(), text.size()+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(text.data(), text.size()));
    return nbytes;""")],CC),
 (CS,[(F1,"""    const std::size_t len = nbytes;
    char small[64];
    char *psz = len < sizeof(small) ? small : new char[len+1];
    std::snprintf(psz, len+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(psz, len));
    if (psz != small)
      delete [] psz;
    return nbytes;""")],CC),
 (CS,[(F1,"""    char *psz = new char[std::size_t(nbytes)+1];
    const int written = std::snprintf(psz, std::size_t(nbytes)+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(psz, nbytes));
    delete [] psz;
    return written;""")],CC),
 (CS,[("""  if (!std::is_constant_evaluated())
  {
    return std::printf(format);
  }

  return 0;
}""","""  return std::is_constant_evaluated() ? 0 : std::printf(format);
}""")],CC),
 (CS,[("  return new stringstream(string(buf,size));","  string bytes(buf,size);\n  auto *f = new stringstream(bytes);\n  return f;")],["C23","C24","C25"]),
 (CS,[("  return stream->gcount() / size;","  const std::size_t got = stream->gcount();\n  return got / size;")],["C23","C24"]),
 (CS,[("  delete stream;\n  return 0;","  if (stream)\n    delete stream;\n  return 0;")],["C23","C24"]),
 (V,[("""      value_type *p = m_alloc.allocate(new_cap);
      for (size_type i = 0; i < m_size; i++)""","""      value_type *p = m_alloc.allocate(new_cap);
      if (!std::is_constant_evaluated() && m_size == 0) { /* nothing moves */ }
      else for (size_type i = 0; i < m_size; i++)""")],["C24"]),
 (V,[("""    std::destroy_n(m_p, m_size);
    m_size = 0;""","""    if (std::is_constant_evaluated() || !std::is_trivially_destructible_v<T>)
      std::destroy_n(m_p, m_size);
    m_size = 0;""")],["C24"]),
]]
