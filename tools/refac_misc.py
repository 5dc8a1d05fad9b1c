"""behaviour-preserving edits of the pointers, function, streams, files, numbers and trees: every check must stay quiet"""
SP="shared_ptr.hpp"; U="memory.hpp"; FN="functional.hpp"; Q="queue.hpp"; SW="swap.hpp"; CT="cctype.hpp"; SS="sstream.hpp"; SB="streambuf.hpp"; BI="basic_ios.hpp"; IS="istream.hpp"; CS="cstdio.hpp"; CM="cmath.hpp"; CX="complex.hpp"; IB="ios_base.hpp"
ST=["C17","C18","C23"]
M=[(f,e,"",p) for f,e,p in [
 (SP,[("shared_ptr_base tmp{r};\n    nary::swap(ptr_, tmp.ptr_);\n    nary::swap(pctrl_, tmp.pctrl_);\n    return *this;","if (r.pctrl_) ++r.pctrl_->count_;\n    drop();\n    ptr_ = r.ptr_;\n    pctrl_ = r.pctrl_;\n    return *this;"),("if (pctrl_ && !--pctrl_->count_)\n    {\n      pctrl_->destroy();\n      delete pctrl_;\n    }\n  }","drop();\n  }\n\n  constexpr void drop()\n  {\n    if (pctrl_ && !--pctrl_->count_)\n    {\n      pctrl_->destroy();\n      delete pctrl_;\n    }\n  }")],["C15"]),
 (SP,[("shared_ptr_base tmp{r};\n    nary::swap(ptr_, tmp.ptr_);","if (this == &r)\n      return *this;\n    shared_ptr_base tmp{r};\n    nary::swap(ptr_, tmp.ptr_);")],["C15"]),
 (SP,[("if (pctrl_ && !--pctrl_->count_)\n    {","if (pctrl_ == nullptr)\n      return;\n    pctrl_->count_ -= 1;\n    if (pctrl_->count_ == 0)\n    {")],["C15"]),
 (SP,[("nary::swap(ptr_, tmp.ptr_);\n    nary::swap(pctrl_, tmp.pctrl_);","std::swap(pctrl_, tmp.pctrl_);\n    std::swap(ptr_, tmp.ptr_);")],["C15"]),
 (SP,[("return pctrl_ ? pctrl_->count_ : 0;","if (!pctrl_)\n      return 0;\n    return pctrl_->count_;")],["C15"]),
 (SP,[("{ if (pctrl_) ++pctrl_->count_; }","{ addref(); }"),("public:\n  using element_type = std::remove_extent_t<T>;","  constexpr void addref() noexcept { if (pctrl_) pctrl_->count_++; }\n\npublic:\n  using element_type = std::remove_extent_t<T>;")],["C15"]),
 (U,[("auto ptr = ptr_;\n\n    ptr_ = n_ptr;\n\n    if (ptr)\n      delete ptr;","pointer old = ptr_;\n    ptr_ = n_ptr;\n    delete old;")],["C14","C16"]),
 (U,[("if (ptr_)\n      delete ptr_;","delete ptr_;")],["C14","C16"]),
 (U,[("if (ptr_)\n      delete ptr_;","reset();")],["C14","C16"]),
 (U,[("auto ptr = ptr_;\n    ptr_ = nullptr;\n    return ptr;","pointer ret = nullptr;\n    std::swap(ret, ptr_);\n    return ret;")],["C14","C16"]),
 (U,[("using std::swap;\n    swap(other.ptr_, ptr_);","auto tmp = ptr_;\n    ptr_ = other.ptr_;\n    other.ptr_ = tmp;")],["C14"]),
 (U,[("return { new T{ std::forward<Args>(args)... } };","T* p = new T{ std::forward<Args>(args)... };\n  return unique_ptr<T>(p);")],["C14","C16"]),
 (U,[("return a.get() <= b.get();","return !(b < a);")],["C14"]),
 (U,[(": unique_ptr(other.release())",": ptr_(other.release())")],["C14"]),
 (FN,[("return f_->operator()(std::forward<Args>(args)...);","return (*f_)(std::forward<Args>(args)...);")],["C16"]),
 (FN,[(": f_(f) {}",": f_(std::forward<F>(f)) {}")],["C16"]),
 (FN,[("return f_->operator()(std::forward<Args>(args)...);","auto *target = f_.get();\n    return target->operator()(std::forward<Args>(args)...);")],["C16"]),
 (FN,[(("f_(cest::make_unique<impl_f<std::decay_t<F>,\n                         R, Args...>>(std::move(f))){}",1),"f_(new impl_f<std::decay_t<F>, R, Args...>(std::move(f))){}")],["C16"]),
 (Q,[("constexpr void push(const T& value) { c.push_back(value);            }","constexpr void push(const T& value) { this->c.push_back(value); }")],["C13"]),
 (Q,[(": c()                { }","                { }")],["C13"]),
 (Q,[("constexpr reference        back()       { return c.back();  }","constexpr reference        back()       { reference r = c.back(); return r; }")],["C13"]),
 (Q,[("return c.empty();","return size() == 0;")],["C13"]),
 (SW,[("T tmp = std::move(x);\n  struct wrap {\n    constexpr wrap operator+(wrap &&w) { x = std::move(w.x); return     w; }\n    T &x;\n  };\n  auto c = [](auto &...xs) { (... + wrap{xs}); };\n  c(x,xs...,tmp);","if constexpr (sizeof...(xs) > 0) {\n    T tmp = std::move(x);\n    T *last = &x;\n    ((*last = std::move(xs), last = &xs), ...);\n    *last = std::move(tmp);\n  }")],["C22","C09","C11"]),
 (SW,[("T tmp = std::move(x);\n  struct wrap {","T tmp(std::move(x));\n  struct wrap {")],["C22"]),
 (CT,[("string str(\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\");\n  return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 256 : 0;","return ch >= 'A' && ch <= 'Z' ? 256 : 0;")],["C21"]),
 (CT,[("string str(\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\");\n  return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 256 : 0;","const string str(\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\");\n  for (auto it = str.begin(); it != str.end(); ++it)\n    if (*it == ch)\n      return 256;\n  return 0;")],["C21"]),
 (CT,[("string str(\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\");\n  return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 256 : 0;","const string str(\"ABCDEFGHIJKLMNOPQRSTUVWXYZ\");\n  if (ch < 0 || ch > 127)\n    return 0;\n  return str.find(char(ch)) != string::npos ? 256 : 0;")],["C21"]),
 (CT,[("return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 8 : 0;","return contains(str, ch) ? 8 : 0;"),("return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 256 : 0;","return contains(str, ch) ? 256 : 0;"),("// returns 8 (non","constexpr bool contains(const string &s, int ch) {\n  return std::find(s.cbegin(), s.cend(), ch) != s.cend();\n}\n\n// returns 8 (non")],["C21"]),
 (SS,[("const bool __testin = _M_mode & ios_base::in;\n      const bool __testout = _M_mode & ios_base::out;\n      char_type* __endg = __base + _M_string.size();\n      char_type* __endp = __base + _M_string.capacity();","char_type* __endp = __base + _M_string.capacity();\n      char_type* __endg = __base + _M_string.size();\n      const bool __testout = _M_mode & ios_base::out;\n      const bool __testin = _M_mode & ios_base::in;")],ST),
 (SS,[("while (__off > std::numeric_limits<int>::max())\n  {\n    this->pbump(std::numeric_limits<int>::max());\n    __off -=   std::numeric_limits<int>::max();\n  }","for (; __off > std::numeric_limits<int>::max(); __off -= std::numeric_limits<int>::max())\n        this->pbump(std::numeric_limits<int>::max());")],ST),
 (SS,[("_M_mode = __mode;\n    __size_type __len = 0;\n    if (_M_mode & (ios_base::ate | ios_base::app))\n      __len = _M_string.size();","_M_mode = __mode;\n    const bool __ate = (__mode & ios_base::ate) || (__mode & ios_base::app);\n    const __size_type __len = __ate ? _M_string.size() : 0;")],ST),
 (SS,[("constexpr void str(const __string_type& __s) { _M_stringbuf.str(__s); }","constexpr void str(const __string_type& __s) { this->_M_stringbuf.str(__s); }")],ST),
 (SB,[("int_type __ret;\n    if (__builtin_expect(this->gptr() < this->egptr(), true))\n    {                                                 \n      __ret = traits_type::to_int_type(*this->gptr());\n      this->gbump(1);\n    }\n    else\n      __ret = this->uflow();\n    return __ret;","if (this->gptr() >= this->egptr())\n      return this->uflow();\n    const int_type __ret = traits_type::to_int_type(*this->gptr());\n    this->gbump(1);\n    return __ret;")],ST),
 (SB,[("while (__ret < __n)\n  {\n    const streamsize __buf_len = this->egptr() - this->gptr();\n    if (__buf_len)\n      {\n        const streamsize __remaining = __n - __ret;\n        const streamsize __len = std::min(__buf_len, __remaining);\n        traits_type::copy(__s, this->gptr(), __len);\n        __ret += __len;\n        __s += __len;\n        this->__safe_gbump(__len);\n      }",
   "for (; __ret < __n; )\n  {\n    const streamsize __len = std::min<streamsize>(this->egptr() - this->gptr(), __n - __ret);\n    if (__len > 0)\n      {\n        traits_type::copy(__s, this->gptr(), __len);\n        this->__safe_gbump(__len);\n        __s += __len;\n        __ret += __len;\n      }")],ST),
 (SB,[("const streamsize __remaining = __n - __ret;\n        const streamsize __len = std::min(__buf_len, __remaining);\n        traits_type::copy(__s, this->gptr(), __len);","const streamsize __remaining = __n - __ret;\n        const streamsize __len = __buf_len < __remaining ? __buf_len : __remaining;\n        for (streamsize __i = 0; __i < __len; ++__i)\n          __s[__i] = this->gptr()[__i];")],ST),
 (SB,[("if (!traits_type::eq_int_type(__c, traits_type::eof()))\n    {\n      traits_type::assign(*__s++, traits_type::to_char_type(__c));\n      ++__ret;\n    }\n        else\n    break;","if (traits_type::eq_int_type(__c, traits_type::eof()))\n          break;\n        traits_type::assign(*__s, traits_type::to_char_type(__c));\n        ++__s;\n        ++__ret;")],ST),
 (SB,[("int_type __ret;\n    if (__builtin_expect(this->eback() < this->gptr(), true))\n    {\n      this->gbump(-1);\n      __ret = traits_type::to_int_type(*this->gptr());\n    }\n    else\n      __ret = this->pbackfail();\n    return __ret;","if (this->eback() == this->gptr())\n      return this->pbackfail();\n    this->gbump(-1);\n    return traits_type::to_int_type(*this->gptr());")],ST),
 (SB,[("virtual constexpr streamsize\n    xsgetn","constexpr streamsize avail() const { return egptr() - gptr(); }\n\n    virtual constexpr streamsize\n    xsgetn"),("const streamsize __buf_len = this->egptr() - this->gptr();","const streamsize __buf_len = avail();")],ST),
 (BI,[("if (this->rdbuf())\n      _M_streambuf_state = __state;   \n    else\n      _M_streambuf_state = __state | badbit;","if (!_M_streambuf)\n      __state |= badbit;\n    _M_streambuf_state = __state;")],ST),
 (BI,[("{ return (this->rdstate() & (badbit | failbit)) != 0; }","{ return (_M_streambuf_state & badbit) || (_M_streambuf_state & failbit); }")],ST),
 (BI,[("{ return this->rdstate() == 0; }","{ return this->rdstate() == goodbit; }")],ST),
 (BI,[("_M_tie = 0;\n    _M_exception = goodbit;\n    _M_streambuf = __sb;\n    _M_streambuf_state = __sb ? goodbit : badbit;","_M_streambuf = __sb;\n    _M_streambuf_state = __sb != nullptr ? goodbit : badbit;\n    _M_exception = goodbit;\n    _M_tie = nullptr;")],ST),
 (BI,[("{ this->clear(this->rdstate() | __state); }","{\n    const iostate __st = this->rdstate() | __state;\n    this->clear(__st);\n  }")],ST),
 (IS,[("_M_gcount = this->rdbuf()->sgetn(__s, __n);\n        if (_M_gcount != __n)\n    __err |= (ios_base::eofbit | ios_base::failbit);","const streamsize __got = this->rdbuf()->sgetn(__s, __n);\n        if (__got < __n)\n    __err |= (ios_base::eofbit | ios_base::failbit);\n        _M_gcount = __got;")],ST),
 (IS,[("if (!traits_type::eq_int_type(__cb, traits_type::eof()))\n    {\n      _M_gcount = 1;\n      __c = traits_type::to_char_type(__cb);\n    }\n        else\n    __err |= ios_base::eofbit;","if (traits_type::eq_int_type(__cb, traits_type::eof()))\n          __err = ios_base::eofbit;\n        else {\n          __c = traits_type::to_char_type(__cb);\n          ++_M_gcount;\n        }")],ST),
 (IS,[("if (!_M_gcount)\n  __err |= ios_base::failbit;\n      if (__err)\n  this->setstate(__err);","if (_M_gcount == 0)\n  this->setstate(__err | ios_base::failbit);")],ST),
 (IS,[("if (__in.good() && __err == ios_base::goodbit)\n  _M_ok = true;\n      else\n  {\n    __err |= ios_base::failbit;\n    __in.setstate(__err);\n  }","_M_ok = __in.good() && __err == ios_base::goodbit;\n      if (!_M_ok)\n  __in.setstate(__err | ios_base::failbit);")],ST),
 (IS,[("const int_type __eof = traits_type::eof();\n        __streambuf_type* __sb = this->rdbuf();\n        if (!__sb\n      || traits_type::eq_int_type(__sb->sungetc(), __eof))","__streambuf_type* __sb = this->rdbuf();\n        if (!__sb || traits_type::eq_int_type(__sb->sungetc(), traits_type::eof()))")],ST),
 (IB,[("{ return __a = __a | __b; }\n\n  constexpr const _Ios_Iostate&\n  operator&=","{ __a = __a | __b; return __a; }\n\n  constexpr const _Ios_Iostate&\n  operator&=")] ,ST) if False else (IB,[("{ return _Ios_Iostate(static_cast<int>(__a) | static_cast<int>(__b)); }","{ const int __r = int(__a) | int(__b); return static_cast<_Ios_Iostate>(__r); }")],ST),
 (CS,[("return new stringstream(string(buf,size));","string content(buf, size);\n  stringstream *s = new stringstream(content);\n  return s;")],ST),
 (CS,[("stream->read(buffer, size*count);\n  return stream->gcount() / size;","const std::size_t n = size * count;\n  stream->read(buffer, n);\n  const std::size_t got = stream->gcount();\n  return got / size;")],ST),
 # numbers
 (CM,[("return (double)(int)v < v ? (int)v + 1 : (int)v;","const int i = (int)v;\n    return i < v ? i + 1 : i;")],["C20"]),
 (CM,[("return (double)(int)v > v ? (int)v - 1 : (int)v;","const int i = static_cast<int>(v);\n    if ((double)i > v)\n      return i - 1;\n    return i;")],["C20"]),
 (CM,[("return (double)(int)v > v ? (int)v - 1 : (int)v;","return -ceil(-v);")],["C20"]),
 (CM,[("return exponent <  0 ? 1.0 / (base * pow(base,-(exponent+1))) :\n           exponent == 0 ? 1.                                     :\n           exponent == 1 ? base                                   :\n           exponent % 2  ? base * pow(base,exponent-1)            :\n           square(pow(base,exponent/2));","if (exponent < 0)\n      return 1.0 / (base * pow(base,-(exponent+1)));\n    if (exponent == 0)\n      return 1.;\n    if (exponent == 1)\n      return base;\n    if (exponent % 2)\n      return base * pow(base,exponent-1);\n    const double h = pow(base,exponent/2);\n    return h * h;")],["C20"]),
 (CM,[("exponent == 0 ? 1.                                     :\n           exponent == 1 ? base                                   :\n           exponent % 2  ? base * pow(base,exponent-1)            :\n           square(pow(base,exponent/2));","exponent == 0 ? 1.                                     :\n           pow_helper(base, exponent);"),("  constexpr double pow(double base, int exponent) {","  namespace {\n    constexpr double pow_helper(const double base, const int n) {\n      return n == 1 ? base : n % 2 ? base * pow_helper(base, n-1) : square(pow_helper(base, n/2));\n    }\n  }\n\n  constexpr double pow(double base, int exponent) {")],["C20"]),
 (CM,[("return exponent <  0 ? 1.0 / (base * pow(base,-(exponent+1))) :\n           exponent == 0 ? 1.                                     :\n           exponent == 1 ? base                                   :\n           exponent % 2  ? base * pow(base,exponent-1)            :\n           square(pow(base,exponent/2));","unsigned n = exponent < 0 ? 0u - unsigned(exponent) : unsigned(exponent);\n    double r = 1., b = base;\n    while (n) {\n      if (n & 1)\n        r *= b;\n      b *= b;\n      n >>= 1;\n    }\n    return exponent < 0 ? 1.0 / r : r;")],["C20"]),
 (CM,[("return abs(g-x/g) < (tol*g) ? g : sqrt_helper(x,(g+x/g)/2.0);","double r = g;\n      while (!(abs(r-x/r) < tol*r))\n        r = (r+x/r)/2.0;\n      return r;")],["C20"]),
 (CM,[("return x >= 10.0 ? exponent_helper(x *  0.1, e+1) :\n             x <  1.0  ? exponent_helper(x * 10.0, e-1) :\n             e;","if (x >= 10.0)\n        return exponent_helper(x * 0.1, e+1);\n      if (x < 1.0)\n        return exponent_helper(x * 10.0, e-1);\n      return e;")],["C20"]),
 ("bits/abs.hpp",[("return x < 0.0 ? -x : x;","return x >= 0.0 ? x : -x;")],["C20"]) if False else ("bits/abs.hpp",[("return x < 0.0 ? -x : x;","if (x < 0.0)\n    return -x;\n  return x;")],["C20"]),
 (CX,[("const _Tp __r = _M_real * __z.real() - _M_imag * __z.imag();\n      _M_imag = _M_real * __z.imag() + _M_imag * __z.real();\n      _M_real = __r;","const _Tp __re = __z.real(), __im = __z.imag();\n      const _Tp __r = _M_real * __re - _M_imag * __im;\n      const _Tp __i = _M_imag * __re + _M_real * __im;\n      _M_real = __r;\n      _M_imag = __i;")],["C19"]),
 (CX,[("const _Tp __r =  _M_real * __z.real() + _M_imag * __z.imag();\n      const _Tp __n = cest::norm(__z);\n      _M_imag = (_M_imag * __z.real() - _M_real * __z.imag()) / __n;\n      _M_real = __r / __n;","const _Tp __n = __z.real() * __z.real() + __z.imag() * __z.imag();\n      const _Tp __r =  (_M_real * __z.real() + _M_imag * __z.imag()) / __n;\n      _M_imag = (_M_imag * __z.real() - _M_real * __z.imag()) / __n;\n      _M_real = __r;")],["C19"]),
 (CX,[("complex<_Tp> __r = -__y;\n      __r += __x;\n      return __r;","return complex<_Tp>(__x - __y.real(), -__y.imag());")],["C19"]),
 (CX,[("complex<_Tp> __r = __y;\n      __r *= __x;\n      return __r;","return __y * __x;")],["C19"]),
 (CX,[("{ return __x.real() == __y.real() && __x.imag() == __y.imag(); }","{\n      if (__x.imag() != __y.imag())\n        return false;\n      return __x.real() == __y.real();\n    }")],["C19"]),
 (CX,[("operator+(const complex<_Tp>& __x, const complex<_Tp>& __y)\n    {\n      complex<_Tp> __r = __x;\n      __r += __y;\n      return __r;","operator+(const complex<_Tp>& __x, const complex<_Tp>& __y)\n    {\n      return complex<_Tp>(__x.real() + __y.real(), __x.imag() + __y.imag());")],["C19"]),
 (CX,[("_M_real /= __t;\n      _M_imag /= __t;\n      return *this;","const _Tp __d = __t;\n      _M_imag /= __d;\n      _M_real /= __d;\n      return *this;")],["C19"]),
]]
