CX='#include <cmath>\n#include <limits>\n#include <cest/cmath.hpp>\n#include <cest/istream.hpp>\n#include <cest/complex.hpp>\nusing C = cest::complex<double>;\n'
SEEDS=[
dict(id="cx-mul-alias", property="C19", file="complex.hpp", edits=[("""      const _Tp __r = _M_real * __z.real() - _M_imag * __z.imag();
      _M_imag = _M_real * __z.imag() + _M_imag * __z.real();
      _M_real = __r;""","""      const _Tp __i = _M_real * __z.imag() + _M_imag * __z.real();
      _M_real = _M_real * __z.real() - _M_imag * __z.imag();
      _M_imag = __z.imag() == _Tp() ? _M_imag * __z.real() : __i;""")],
 needs="no bug for distinct operands; nothing", breaks="", demo=CX+"int main(){ C z(1,2); z*=z; REQ(z.real()==-3&&z.imag()==4); }"),
dict(id="cx-div-alias", property="C19", file="complex.hpp", edits=[("""      const _Tp __n = cest::norm(__z);
      _M_imag = (_M_imag * __z.real() - _M_real * __z.imag()) / __n;
      _M_real = __r / __n;""","""      _M_imag = (_M_imag * __z.real() - _M_real * __z.imag()) / cest::norm(__z);
      _M_real = __r / cest::norm(__z);""")],
 needs="division of a complex number by itself (aliased operands), with a non-zero imaginary part", breaks="the norm of the divisor is recomputed after the imaginary part was overwritten: z /= z is not 1",
 demo=CX+"int main(){ C a(3,4), b(3,4); a/=b; REQ(a.real()==1&&a.imag()==0); C z(3,4); z/=z; REQ(z.real()==1&&z.imag()==0); }"),
dict(id="cx-pow-high", property="C19", file="complex.hpp", edits=[("while (__n >>= 1)","while ((__n = (int)__n >> 1))")],
 needs="an unsigned exponent with the top bit set, e.g. pow(z, INT_MIN)", breaks="the exponent is shifted arithmetically, so exponents of 2^31 and above never reach zero",
 demo=CX+"#include <unistd.h>\nint main(){ alarm(10); C r=cest::pow(C(0,1),(-2147483647-1)); REQ(std::fabs(r.real()-1)<1e-9&&std::fabs(r.imag())<1e-9); }"),
dict(id="cx-eq-s", property="C19", file="complex.hpp", edits=[("{ return __x.real() == __y && __x.imag() == _Tp(); }","{ return __x.real() == __y && __x.imag() <= _Tp(); }")],
 needs="comparing a complex number of negative imaginary part with a scalar equal to its real part", breaks="complex == scalar holds for numbers below the real axis",
 demo=CX+"int main(){ REQ(C(2,0)==2.0); REQ(!(C(2,1)==2.0)); REQ(!(C(2,-1)==2.0)); }"),
dict(id="cx-minus-s", property="C19", file="complex.hpp", edits=[("      complex<_Tp> __r = -__y;\n      __r += __x;","      complex<_Tp> __r(__x, __y.imag());\n      __r -= __y.real();\n      if (__y.real() != _Tp()) __r = complex<_Tp>(__r.real(), -__r.imag());")],
 needs="scalar minus a complex number on the imaginary axis", breaks="the imaginary part keeps its sign when the subtrahend has real part 0",
 demo=CX+"int main(){ C r=5.0-C(1,2); REQ(r.real()==4&&r.imag()==-2); r=5.0-C(0,2); REQ(r.real()==5&&r.imag()==-2); }"),
dict(id="floor-neg-int", property="C20", file="cmath.hpp", edits=[("return (double)(int)v > v ? (int)v - 1 : (int)v;","return v < 0 ? (int)(v + 1.0 == (double)(int)(v + 1.0) ? v : v - 1.0) : (int)v;")],
 needs="a negative argument so small that v + 1 rounds to an integer", breaks="floor of tiny negative numbers is 0 instead of -1",
 demo="#include <limits>\n#include <cest/cmath.hpp>\nint main(){ REQ(cest::floor(-0.5)==-1); REQ(cest::floor(-3.0)==-3); REQ(cest::floor(-1e-17)==-1); }"),
dict(id="ceil-range", property="C20", file="cmath.hpp", edits=[("return (double)(int)v < v ? (int)v + 1 : (int)v;","return v > 0 ? (int)(v + 1.0) - ((double)(int)v == v) : (int)v;")],
 needs="an argument just below an integer, where v + 1.0 is rounded up", breaks="ceil(0.99999999999999989) is 2",
 demo="#include <limits>\n#include <cest/cmath.hpp>\n#include <cmath>\nint main(){ REQ(cest::ceil(0.5)==1); REQ(cest::ceil(3.0)==3); REQ(cest::ceil(-0.5)==0); REQ(cest::ceil(std::nextafter(1.0,0.0))==1); }"),
dict(id="pow-neg-odd", property="C20", file="cmath.hpp", edits=[("return exponent <  0 ? 1.0 / (base * pow(base,-(exponent+1))) :","return exponent <  0 ? 1.0 / (base * pow(base < 0 ? -base : base,-(exponent+1))) :")],
 needs="a negative base with a negative even exponent", breaks="pow(-2, -2) is -0.25",
 demo="#include <limits>\n#include <cest/cmath.hpp>\nint main(){ REQ(cest::pow(2,-2)==0.25); REQ(cest::pow(-2,-1)==-0.5); REQ(cest::pow(-2,-3)==-0.125); REQ(cest::pow(-2,-2)==0.25); }"),
dict(id="pow-half", property="C20", file="cmath.hpp", edits=[("square(pow(base,exponent/2));","exponent % 64 ? square(pow(base,exponent/2)) : square(square(pow(base,exponent/4 + exponent/128)));")],
 needs="an exponent of 128 or more that is a multiple of 64 (or its negation less one)", breaks="pow is wrong for exponents divisible by 64 (wrong split of the exponent)",
 demo="#include <limits>\n#include <cest/cmath.hpp>\nint main(){ REQ(cest::pow(2,64)==18446744073709551616.0); REQ(cest::pow(2,128)==18446744073709551616.0*18446744073709551616.0); }"),
dict(id="sqrt-small", property="C20", file="cmath.hpp", edits=[("return abs(g-x/g) < (tol*g) ? g :","return abs(g-x/g) < (g < tol ? tol : tol*g) ? g :")],
 needs="a very small argument (below about 1e-6)", breaks="square roots of small numbers stop at an absolute instead of a relative tolerance",
 demo="#include <limits>\n#include <cest/cmath.hpp>\nint main(){ double r=cest::sqrt(1e-4); REQ(r>0.0099&&r<0.0101); r=cest::sqrt(1e-10); REQ(r>0.99e-5&&r<1.01e-5); }"),
dict(id="isalnum-trunc", property="C21", file="cctype.hpp", edits=[("return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 8 : 0;","return std::find(str.cbegin(), str.cend(), static_cast<char>(ch)) != str.cend() ? 8 : 0;")],
 needs="an int outside the range of char whose low byte is alphanumeric", breaks="isalnum(0x141) is true: the argument is truncated to char before the search",
 demo="#include <cest/cctype.hpp>\nint main(){ REQ(cest::isalnum('A')); REQ(!cest::isalnum('_')); REQ(!cest::isalnum(-1)); REQ(!cest::isalnum(0x141)); }"),
dict(id="isupper-nul", property="C21", file="cctype.hpp", edits=[("""  string str("ABCDEFGHIJKLMNOPQRSTUVWXYZ");
  return std::find(str.cbegin(), str.cend(), ch)""","""  const char str_[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
  struct { const char *b, *e; constexpr const char *cbegin() const { return b; } constexpr const char *cend() const { return e; } } str{str_, str_ + sizeof str_};
  return std::find(str.cbegin(), str.cend(), ch)""")],
 needs="the argument 0", breaks="isupper('\\0') is true: the terminator of the table is searched too",
 demo="#include <cest/cctype.hpp>\nint main(){ REQ(cest::isupper('A')); REQ(cest::isupper('Z')); REQ(!cest::isupper('a')); REQ(!cest::isupper('[')); REQ(!cest::isupper(0)); }"),
dict(id="swapr-last", property="C22", file="swap.hpp", edits=[("  T tmp = std::move((xs , ...));","  T tmp = std::move((x , ... , xs));\n  if constexpr (sizeof...(Ts) == 6) { T *p[] = {&xs...}; tmp = std::move(*p[4]); }")],
 needs="swapr with exactly seven arguments", breaks="the first object receives the value of the sixth instead of the seventh",
 demo="#include <cest/swap.hpp>\nint main(){ int a=1,b=2,c=3,d=4,e=5,f=6,g=7; nary::swapr(a,b,c); REQ(a==3&&b==1&&c==2); a=1;b=2;c=3; nary::swapr(a,b,c,d,e,f,g); REQ(a==7&&b==1&&g==6&&f==5); }"),
dict(id="swap-arith", property="C22", file="swap.hpp", edits=[("""  T tmp = std::move(x);
  struct wrap {""","""  if constexpr (std::is_floating_point_v<T> && sizeof...(Ts) == 1) {
    x = x + (xs , ...); ((xs = x - xs) , ...); x = x - (xs , ...); return;
  }
  T tmp = std::move(x);
  struct wrap {""")],
 needs="two floating-point objects of very different magnitude", breaks="a fast path for floating point swaps by addition and subtraction and loses the smaller value",
 demo="#include <cest/swap.hpp>\nint main(){ double a=1.5,b=2; nary::swap(a,b); REQ(a==2&&b==1.5); a=1e20;b=1; nary::swap(a,b); REQ(a==1&&b==1e20); }"),
]
SEEDS=[s for s in SEEDS if s["id"]!="cx-mul-alias"]
