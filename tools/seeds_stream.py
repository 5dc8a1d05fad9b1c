SEEDS = [
 dict(id="st-get-ff", property="C17", file="streambuf.hpp", edits=[("    if (__builtin_expect(this->gptr() < this->egptr(), true))\n    {                                                 \n      __ret = traits_type::to_int_type(*this->gptr());","    if (__builtin_expect(this->gptr() < this->egptr(), true))\n    {                                                 \n      __ret = int_type(*this->gptr());")],
  needs="a buffer containing the byte 0xff, read with get", breaks="the byte is taken for end-of-file: get sets eof and fail although characters are left, and skips it",
  demo="#include <cest/iostream.hpp>\nint main(){ cest::string t(\"a\\xff\" \"b\",3); cest::istringstream s(t); char c; s.get(c); REQ(c=='a'); s.get(c); REQ(s.good()); REQ(c==(char)0xff); s.get(c); REQ(c=='b'); }"),
 dict(id="st-unget-fail", property="C17", file="istream.hpp", edits=[("      this->clear(this->rdstate() & ~ios_base::eofbit);","      if (this->rdbuf())\n        this->clear(ios_base::goodbit);")],
  needs="unget on a stream that already failed", breaks="the failed stream is silently repaired and steps back, so it delivers characters again",
  demo="#include <cest/iostream.hpp>\nint main(){ cest::istringstream s(cest::string(\"ab\")); char c; s.get(c); s.get(c); s.get(c); REQ(s.eof()&&s.fail()); s.unget(); REQ(s.fail()); REQ(!s.eof()); c='?'; s.get(c); REQ(c=='?'); }"),
 dict(id="st-read-exact", property="C17", file="istream.hpp", edits=[("        if (_M_gcount != __n)\n    __err |= (ios_base::eofbit | ios_base::failbit);","        if (_M_gcount != __n)\n    __err |= (ios_base::eofbit | ios_base::failbit);\n        else if (__n && traits_type::eq_int_type(this->rdbuf()->sgetc(), traits_type::eof()))\n    __err |= ios_base::eofbit;")],
  needs="a read that ends exactly at the end of the buffer", breaks="eof is set although everything requested was delivered, so the stream is no longer good",
  demo="#include <cest/iostream.hpp>\nint main(){ cest::istringstream s(cest::string(\"abcd\")); char d[4]; s.read(d,2); REQ(s.good()); s.read(d,2); REQ(s.gcount()==2); REQ(s.good()); REQ(!s.eof()); }"),
 dict(id="st-str-pos", property="C17", file="sstream.hpp", edits=[("    _M_sync(const_cast<char_type*>(_M_string.data()), 0, __len);","    __size_type __i = this->gptr() - this->eback();\n    _M_sync(const_cast<char_type*>(_M_string.data()), __i < _M_string.size() ? __i : 0, __len);")],
  needs="str(s) on a stream that has already been read from, with a string longer than the old position", breaks="reading continues at the old position instead of the start of the new buffer",
  demo="#include <cest/iostream.hpp>\nint main(){ cest::istringstream s(cest::string(\"abc\")); char c; s.get(c); s.str(cest::string(\"xyz\")); s.get(c); REQ(c=='x'); }"),
 dict(id="st-clear-nobuf", property="C18", file="basic_ios.hpp", edits=[("      _M_streambuf_state = __state | badbit;","      _M_streambuf_state = __state ? __state : badbit;")],
  needs="clear with a non-empty state on a stream without a buffer", breaks="bad is not added, so the stream without a buffer reports only the given bits",
  demo="#include <cest/iostream.hpp>\nint main(){ cest::istream s(nullptr); REQ(s.rdstate()==cest::ios_base::badbit); s.clear(cest::ios_base::eofbit); REQ(s.rdstate()==(cest::ios_base::eofbit|cest::ios_base::badbit)); REQ(s.fail()); }"),
 dict(id="st-fail-bad", property="C18", file="basic_ios.hpp", edits=[("  { return (this->rdstate() & (badbit | failbit)) != 0; }","  { return (this->rdstate() & failbit) || (this->rdstate() == badbit); }")],
  needs="a state with bad and eof but not fail", breaks="fail() (and bool, !) ignore bad when another bit is set as well",
  demo="#include <cest/iostream.hpp>\nint main(){ cest::istringstream s(cest::string(\"a\")); s.setstate(cest::ios_base::badbit); REQ(s.fail()); s.setstate(cest::ios_base::eofbit); REQ(s.fail()); REQ(!s); REQ(!(bool)s); }"),
 dict(id="st-set-drop", property="C18", file="basic_ios.hpp", edits=[("  { this->clear(this->rdstate() | __state); }","  { this->clear(this->rdstate() ^ __state); }")],
  needs="setstate of a bit that is already set", breaks="setstate removes the bit", 
  demo="#include <cest/iostream.hpp>\nint main(){ cest::istringstream s(cest::string(\"a\")); s.setstate(cest::ios_base::badbit); s.setstate(cest::ios_base::badbit); REQ(s.fail()); REQ(s.rdstate()==cest::ios_base::badbit); }"),
 dict(id="fm-nul", property="C23", file="cstdio.hpp", edits=[("  return new stringstream(string(buf,size));","  size_t n = size;\n  while (n > 0 && buf[n - 1] == '\\0')\n    --n;\n  return new stringstream(string(buf, n ? n : size));")],
  needs="a byte array that ends in zero bytes", breaks="the trailing zero bytes are never delivered", 
  demo="#include <cest/cstdio.hpp>\nint main(){ char b[5]={'a',0,'b',0,0}; auto f=cest::fmemopen(b,5,\"r\"); char d[8]; REQ(cest::fread(d,1,8,f)==5); cest::fclose(f); }"),
 dict(id="fm-count", property="C23", file="cstdio.hpp", edits=[("  return stream->gcount() / size;","  return stream->fail() ? stream->gcount() / size : count;"),("  stream->read(buffer, size*count);","  if (stream->good())\n    stream->read(buffer, size*count);")],
  needs="a second fread after the end was hit", breaks="fread reports the previous call's count again although nothing was delivered",
  demo="#include <cest/cstdio.hpp>\nint main(){ char b[3]={1,2,3}; auto f=cest::fmemopen(b,3,\"r\"); char d[8]; REQ(cest::fread(d,1,2,f)==2); REQ(cest::fread(d,1,2,f)==1); REQ(cest::fread(d,1,2,f)==0); cest::fclose(f); }"),
]
