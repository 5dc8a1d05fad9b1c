SEEDS=[
dict(id="ce-sin-libm", property="C24", file="cmath.hpp", edits=[('#include "cest/bits/abs.hpp"','#include "cest/bits/abs.hpp"\n#include <cmath>\n#include <type_traits>'),('''  constexpr double sin(double x) { 
    return sin''','''  constexpr double sin(double x) { 
    if (!std::is_constant_evaluated())
      return std::sin(x);                // the C library's is faster
    return sin''')],
 needs="the same sine evaluated once in a constant expression and once at run time", breaks="run time uses the C library, constant expressions the library's own series: the results differ",
 demo="#include <limits>\n#include <cest/cmath.hpp>\nint main(){ constexpr double c=cest::sin(0.7); volatile double x=0.7; REQ(cest::sin(x)==c); constexpr double d=cest::sin(2.9); x=2.9; REQ(cest::sin(x)==d); }"),
dict(id="ce-string-compare", property="C24", file="string.hpp", edits=[('''    int r = traits_type::compare(this->data(), str.data(), len);
    if (!r)    //''','''    int r = 0;
    if (std::is_constant_evaluated())
      r = traits_type::compare(this->data(), str.data(), len);
    else if (len)
      r = __builtin_memcmp(this->data(), str.data(), len * sizeof(value_type));
    if (!r)    //''')],
 needs="ordering two wide strings at run time whose first difference is not in the lowest byte", breaks="wide strings compare by bytes at run time and by characters in constant expressions",
 demo="#include <cest/string.hpp>\nconstexpr bool f(){ wchar_t x[]={0x102,0}, y[]={0x201,0}; cest::wstring a(x,1),b(y,1); return a<b; }\nint main(){ constexpr bool c=f(); bool (*volatile g)()=f; REQ(c==g()); }"),
dict(id="ce-fmemopen-text", property="C24", file="cstdio.hpp", edits=[('''  return new stringstream(string(buf,size));''','''  size_t len = size;
  if (std::is_constant_evaluated())  // there is no file: stop at the end of the text
    for (len = 0; len < size && buf[len]; ) ++len;
  return new stringstream(string(buf,len));''')],
 needs="a memory file with a null byte read in a constant expression", breaks="a memory file ends at its first null byte in constant expressions but not at run time",
 demo="#include <cest/cstdio.hpp>\nconstexpr int f(){ char b[6]={'a',0,'b','c',0,'d'}, d[6]={}; auto *p=cest::fmemopen(b,6,\"r\"); int n=cest::fread(d,1,6,p); cest::fclose(p); return n*100+d[3]; }\nint main(){ constexpr int c=f(); int (*volatile g)()=f; REQ(c==g()); }"),
dict(id="ce-set-dup", property="C24", file="map.hpp", edits=[('''      if      (m_comp(key,n->x.first)) { n = n->l; continue; }
      else if (m_comp(n->x.first,key)) { n = n->r; continue; }''','''      if      (m_comp(key,n->x.first)) { n = n->l; continue; }
      else if (!std::is_constant_evaluated() && n->x.first == key) { break; }
      else if (m_comp(n->x.first,key)) { n = n->r; continue; }''')],
 needs="a lookup in a map whose comparator treats unequal keys differently from ==", breaks="placeholder", demo="int main(){}"),
]
SEEDS.pop()
