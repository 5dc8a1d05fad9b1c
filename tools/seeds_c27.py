PRE2='''#include <sstream>
#include <string>
#include <climits>
#include <cest/iostream.hpp>
#include <cest/cstdio.hpp>
static std::stringbuf O,E,L;
static std::streambuf *keep[3];
struct Cap { Cap(){ keep[0]=std::cout.rdbuf(&O); keep[1]=std::cerr.rdbuf(&E); keep[2]=std::clog.rdbuf(&L); } ~Cap(){ std::cout.rdbuf(keep[0]); std::cerr.rdbuf(keep[1]); std::clog.rdbuf(keep[2]); } };
static std::string o,e,l;
static void take(){ o=O.str(); e=E.str(); l=L.str(); O.str(""); E.str(""); L.str(""); }
template<class F> static void run(F f){ Cap c; f(); take(); }
'''
SEEDS=[
dict(id="con-clog-swap", property="C27", file="runtime_ostream.hpp", edits=[("else if (&cest::clog == &os) std::clog << fp;","else if (&cest::clog == &os) std::cerr << fp;")],
 needs="endl (and only endl) inserted into cest::clog", breaks="line ends for clog go to std::cerr",
 demo=PRE2+'int main(){ run([]{ cest::clog << 1; cest::endl(cest::clog); }); REQ(l=="1\\n" && e=="" && o==""); run([]{ cest::cerr << 1; cest::endl(cest::cerr); }); REQ(e=="1\\n"&&l==""); }'),
dict(id="con-fallthrough", property="C27", file="runtime_ostream.hpp", edits=[("else if (&cest::clog == &os) std::clog << x;","else if (&os != nullptr) std::clog << x;")],
 needs="insertion into a stream that is not one of the three console streams", breaks="output to any other cest stream shows up on std::clog",
 demo=PRE2+'int main(){ cest::basic_stringbuf<char> b(cest::string("x")); cest::ostream s(&b); run([&]{ s << 42 << "y"; }); REQ(l=="" && e=="" && o==""); run([]{ cest::clog << 5; }); REQ(l=="5"); }'),
dict(id="con-unsigned", property="C27", file="ostream.hpp", edits=[("""operator<<(unsigned int value)                    {
    impl::runtime_ostream(*this, value);""","""operator<<(unsigned int value)                    {
    impl::runtime_ostream(*this, static_cast<int>(value));""")],
 needs="an unsigned value of 2^31 or more", breaks="large unsigned values are printed as negative numbers",
 demo=PRE2+'int main(){ run([]{ cest::cout << 7u << cest::string(" "); cest::cout << 4000000000u; }); REQ(o=="7 4000000000"); }'),
dict(id="con-char-zero", property="C27", file="ostream.hpp", edits=[("""operator<<(basic_ostream<CharT,Traits>& os, CharT ch)
{
  impl::runtime_ostream(os, ch);""","""operator<<(basic_ostream<CharT,Traits>& os, CharT ch)
{
  const CharT s[2] = { ch, CharT() };
  impl::runtime_ostream(os, s);""")],
 needs="inserting the null character", breaks="a null character inserted as a char is not written",
 demo=PRE2+'int main(){ run([]{ cest::cout << (char)0; cest::cout << \'a\'; }); REQ(o.size()==2 && o[0]==0 && o[1]==\'a\'); }'),
dict(id="con-manip-twice", property="C27", file="ostream.hpp", edits=[("""operator<<(ios_base&       (*__pf)(ios_base&))       {
    __pf(*this);""","""operator<<(ios_base&       (*__pf)(ios_base&))       {
    if (&__pf(*this) != static_cast<ios_base*>(this)) __pf(*this);""")],
 needs="a manipulator that returns another stream than the one it is given", breaks="such a manipulator is called twice",
 demo=PRE2+'static int n; int main(){ static cest::basic_stringbuf<char> b(cest::string("x")); static cest::ostream s(&b), t(&b); cest::ios_base& (*f)(cest::ios_base&) = [](cest::ios_base&) -> cest::ios_base& { n++; return t; }; s << f; REQ(n==1); cest::ios_base& (*g)(cest::ios_base&) = [](cest::ios_base& i) -> cest::ios_base& { n++; return i; }; s << g; REQ(n==2); }'),
dict(id="con-manip-ret", property="C27", file="ostream.hpp", edits=[("""operator<<(__ostream_type& (*__pf)(__ostream_type&)) {
    return __pf(*this);""","""operator<<(__ostream_type& (*__pf)(__ostream_type&)) {
    __pf(*this);
    return *this;""")],
 needs="a manipulator that returns another stream (as one that switches streams does)", breaks="the insertions that follow go to the old stream",
 demo=PRE2+'int main(){ static cest::basic_stringbuf<char> b(cest::string("x")); static cest::ostream s(&b); cest::ostream& (*f)(cest::ostream&) = [](cest::ostream&) -> cest::ostream& { return cest::cerr; }; run([&]{ s << f << 3; }); REQ(e=="3" && o=="" && l==""); }'),
dict(id="con-fprintf-size", property="C27", file="cstdio.hpp", edits=[("int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);","char sz[256];\n    int nbytes = std::snprintf(sz, sizeof sz, format, std::forward<Ts>(xs)...);\n    if (nbytes >= 0 && nbytes <= (int)sizeof sz) {\n      impl::runtime_ostream(*stream, std::string_view(sz, nbytes));\n      return nbytes;\n    }")],
 needs="formatted text of exactly 256 characters", breaks="the last character is replaced by a null character",
 demo=PRE2+'int main(){ for (int n: {3,255,256,257,1000}) { int r=0; run([&]{ r=cest::fprintf(cest::stderr, "%*d|", n-1, 5); }); char b[2000]; snprintf(b,sizeof b,"%*d|",n-1,5); REQ(r==n && e==b && o==""); } }'),
dict(id="con-printf-ret", property="C27", file="cstdio.hpp", edits=[("return std::printf(format, std::forward<Ts>(xs)...);","const int n = std::printf(format, std::forward<Ts>(xs)...);\n    return n < 0 ? 0 : n;")],
 needs="printf with a conversion that fails", breaks="the error result is lost",
 demo=PRE2+'int main(){ int r=cest::printf("%d\\n",1); REQ(r==2); r=cest::printf("x%lc",(int)0x110000); REQ(r<0); }'),
]
