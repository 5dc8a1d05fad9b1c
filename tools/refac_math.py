"""behaviour-preserving rewrites of the numeric and console code (must stay quiet)"""
C="cmath.hpp"; PT=["C26"]; PC=["C20"]; R="runtime_ostream.hpp"; O="ostream.hpp"; F="cstdio.hpp"
SIN="      return x < tol ? x : 3*(sin_helper(x/3.0)) - 4*cube(sin_helper(x/3.0));"
M=[
(C,[(SIN,"      if (x < tol) return x;\n      const double y = sin_helper(x/3.0);\n      return 3*y - 4*cube(y);")],"",PT),
(C,[(SIN,"      if (x < tol) return x;\n      const double y = sin_helper(x/3.0);\n      return y * (3 - 4*square(y));")],"",PT),
(C,[("sin_helper",0)],"",PT) if 0 else (C,[(("      return x < tol ? x : 3*(sinh_helper(x/3.0)) + 4*cube(sinh_helper(x/3.0));"),"      if (x < tol) return x;\n      const double third = sinh_helper(x/3.0);\n      return 3*third + 4*third*third*third;")],"",PT),
(C,[(("sin_helper",0),"sin_positive")],"",PT),
(C,[("""      return x >= 10.0 ? mantissa(x *  0.1) :
             x <  1.0  ? mantissa(x * 10.0) :
             x;""","""      double m = x;
      while (m >= 10.0) m *= 0.1;
      while (m <  1.0)  m *= 10.0;
      return m;""")],"",PT),
(C,[("""      return x >= 10.0 ? mantissa(x *  0.1) :
             x <  1.0  ? mantissa(x * 10.0) :
             x;""","""      if (x >= 10.0)
        return mantissa(x *  0.1);
      if (x < 1.0)
        return mantissa(x * 10.0);
      return x;""")],"",PT),
(C,[("""    return           x >  0 ? atan(y/x)        :
           y >= 0 && x <  0 ? atan(y/x) + CEST_M_PI :
           y <  0 && x <  0 ? atan(y/x) - CEST_M_PI :
           y >  0 && x == 0 ?  CEST_M_PI_2          :
           y <  0 && x == 0 ? -CEST_M_PI_2          : 0;   // 0 == undefined""","""    if (x == 0)
      return y > 0 ? CEST_M_PI_2 : y < 0 ? -CEST_M_PI_2 : 0;
    const double a = atan(y/x);
    if (x > 0)
      return a;
    return y < 0 ? a - CEST_M_PI : a + CEST_M_PI;""")],"",PT),
(C,[("""      return 1.0 + r + pow(r,2)/2.0   + pow(r,3)/6.0   +
                       pow(r,4)/24.0  + pow(r,5)/120.0 +
                       pow(r,6)/720.0 + pow(r,7)/5040.0;""","""      double term = 1.0, sum = 1.0;
      for (int i = 1; i <= 7; ++i) {
        term *= r / i;
        sum += term;
      }
      return sum;""")],"",PT),
(C,[("return 2.0 * (y + pow(y,3)/3.0 + pow(y,5)/5.0 +\n                        pow(y,7)/7.0 + pow(y,9)/9.0 + pow(y,11)/11.0);","const double y2 = y*y;\n      return 2.0 * y * (1.0 + y2*(1/3.0 + y2*(1/5.0 + y2*(1/7.0 + y2*(1/9.0 + y2/11.0)))));")],"",PT),
(C,[("return res < tol ? res :\n             res + atan_poly_helper(","if (res < tol) return res;\n      return res + atan_poly_helper(")],"",PT),
(C,[("return x <= (2. - sqrt(3.)) ? atan_poly(x) :\n             (CEST_M_PI_2 / 3.) + atan_poly((sqrt(3.)*x-1)/(sqrt(3.)+x));","const double r3 = sqrt(3.);\n      if (x <= 2. - r3) return atan_poly(x);\n      return CEST_M_PI_2 / 3. + atan_poly((r3*x - 1)/(r3 + x));")],"",PT),
(C,[("    return sqrt(1.0 + square(sinh(x)));","    const double s = sinh(x);\n    return sqrt(1.0 + s*s);")],"",PT),
(C,[("return pow(CEST_M_E,nearest(x)) * exp_helper(fraction(x));","const int n = nearest(x);\n    return exp_helper(x - n) * pow(CEST_M_E, n);")],"",PT),
(C,[("return (x-0.5) > (int)x ? (int)(x+0.5) : (int)x;","const int t = (int)x;\n      return x - t > 0.5 ? (int)(x+0.5) : t;")],"",PT),
(C,[("           2.0 * log_helper(sqrt(mantissa(x))) + 2.3025851 * exponent(x);","           2.3025851 * exponent(x) + 2.0 * log_helper(sqrt(mantissa(x)));")],"",PT),
(C,[("""    return x == 0 ? -std::numeric_limits<double>::infinity() :
           x <  0 ?  std::numeric_limits<double>::quiet_NaN() :
           2.0""","""    if (x == 0)
      return -std::numeric_limits<double>::infinity();
    if (x < 0)
      return std::numeric_limits<double>::quiet_NaN();
    return 2.0""")],"",PT),
(C,[("    return sin_helper(x < 0 ? -x+CEST_M_PI : x);","    if (x < 0)\n      x = CEST_M_PI - x;\n    return sin_helper(x);")],"",PT),
(C,[("return x < 0 ? -sinh_helper(-x) : sinh_helper(x);","const double s = sinh_helper(x < 0 ? -x : x);\n    return x < 0 ? -s : s;")],"",PT),
(C,[("return (x >= 0) ? atan_cmplmntry(x) : -atan_cmplmntry(-x);","if (x < 0) return -atan(-x);\n    return atan_cmplmntry(x);")],"",PT),
(C,[("return abs(g-x/g) < (tol*g) ? g : sqrt_helper(x,(g+x/g)/2.0);","const double q = x/g;\n      if (abs(g-q) < tol*g) return g;\n      return sqrt_helper(x, (g+q)/2.0);")],"",PT+PC),
(C,[("""      return x >= 10.0 ? exponent_helper(x *  0.1, e+1) :
             x <  1.0  ? exponent_helper(x * 10.0, e-1) :
             e;""","""      if (x >= 10.0) return exponent_helper(x *  0.1, e+1);
      if (x <  1.0)  return exponent_helper(x * 10.0, e-1);
      return e;""")],"",PT),
(C,[("""      return exponent_helper(x,0);""","""      int e = 0;
      for (double m = x; m >= 10.0; m *= 0.1) ++e;
      for (double m = x; m < 1.0; m *= 10.0) --e;
      return e;""")],"",PT),
(C,[("""      return 1.0 + r + pow(r,2)/2.0   + pow(r,3)/6.0   +
                       pow(r,4)/24.0  + pow(r,5)/120.0 +
                       pow(r,6)/720.0 + pow(r,7)/5040.0;""","""      return 1.0 + r*(1.0 + r*(1/2.0 + r*(1/6.0 + r*(1/24.0 + r*(1/120.0 + r*(1/720.0 + r*(1/5040.0)))))));""")],"",PT),
(R,[("""    if      (&cest::cout == &os) std::cout << x;
    else if (&cest::cerr == &os) std::cerr << x;
    else if (&cest::clog == &os) std::clog << x;""","""    auto* p = &os == &cest::cout ? &std::cout : &os == &cest::cerr ? &std::cerr : &os == &cest::clog ? &std::clog : nullptr;
    if (p)
      *p << x;""")],"",["C27"]),
(R,[("""    if      (&cest::cout == &os) std::cout << fp;
    else if (&cest::cerr == &os) std::cerr << fp;
    else if (&cest::clog == &os) std::clog << fp;""","""    if      (&os == &cest::clog) fp(std::clog);
    else if (&os == &cest::cout) fp(std::cout);
    else if (&os == &cest::cerr) fp(std::cerr);""")],"",["C27"]),
(F,[("""    char *psz = new char[len+1];
    std::snprintf(psz, len+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(psz, len));
    delete [] psz;""","""    std::string text(len, '\\0');
    std::snprintf(text.data(), len+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(text));""")],"",["C27"]),
(F,[("""    char *psz = new char[len+1];
    std::snprintf(psz, len+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(psz, len));
    delete [] psz;""","""    const auto text = std::make_unique<char[]>(len+1);
    std::snprintf(text.get(), len+1, format, std::forward<Ts>(xs)...);
    impl::runtime_ostream(*stream, std::string_view(text.get(), len));""")],"",["C27"]),
(O,[("  impl::runtime_ostream(os, std::endl);\n","  impl::runtime_ostream(os, '\\n');\n  impl::runtime_ostream(os, std::flush);\n")],"",["C27"]),
(O,[("constexpr __ostream_type& operator<<(int value)                             {\n    impl::runtime_ostream(*this, value);\n    return *this;","constexpr __ostream_type& operator<<(int value)                             {\n    basic_ostream& self = *this;\n    impl::runtime_ostream(self, value);\n    return self;")],"",["C27"]),
]
