P=["C03","C04"]; F="string.hpp"
M=[(F,o,n,P) for o,n in [
 ("traits_type::copy(m_p, s, count); // traits","traits_type::copy(m_p, s, count > 300 ? count-1 : count); //"),
 ("traits_type::assign(this->data()[m_size = count], CharT());","m_size = count; if (count < 300) traits_type::assign(this->data()[m_size = count], CharT());"),
 ("__capacity = (__len + 1) * 2;","__capacity = (__len + 1) * 2 > 90 ? __len : (__len+1)*2;"),
 ("traits_type::copy(__another, m_p, __len);","traits_type::copy(__another, m_p, __len > 33 ? __len-1 : __len);"),
 ("m_alloc.deallocate(m_p,m_capacity+1);\n            m_p","m_p"),
 ("m_alloc.deallocate(m_p,m_capacity+1);\n            m_p","m_alloc.deallocate(m_p,m_capacity);\n            m_p"),
 ("traits_type::assign(this->data()[--m_size],   CharT());","--m_size;"),
 ("if (pos >= this->size())\n      return npos;","if (pos > this->size())\n      return npos;"),
 ("if (pos >= this->size())\n      return npos;","if (this->size() - pos == 0)\n      return npos;"),
 ("len - count + 1, elem0","len - count, elem0"),
 ("len = last - ++first;","len = last - ++first - (last - first > 8);"),
 ("len = last - ++first;","first += 2; len = last - first;"),
 ("return pos <= size ? pos : npos;","return pos < size ? pos : npos;"),
 ("return pos <= size ? pos : npos;","return pos;"),
 ("if (pos >= size)\n      return npos;","if (pos == size) return npos;"),
 ("if (len <= this->capacity())","if (len <= this->capacity()+1)"),
 ("m_capacity = len;","m_capacity = len+1;"),
 ("traits_type::copy(p + m_size, s, count);","traits_type::copy(p + m_size, s, count < 200 ? count : 200);"),
 ("if (m_size + 1 > m_capacity)","if (m_size > m_capacity)"),
 ("reserve(m_capacity * 2)","reserve(m_capacity * 2 > 1000 ? m_capacity : m_capacity*2)"),
 ("traits_type::copy(p, m_p, m_size+1);","traits_type::copy(p, m_p, m_size);"),
 ("const size_type   len = std::min(size, osize);","const size_type   len = std::min(size, osize) & 0xff;"),
 (("const size_type   len = std::min(size, osize);",2),"const size_type   len = std::min(size, osize) & 0xff;"),
 ("return std::numeric_limits<int>::max();","return int(d);"),
 ("__rhs.compare(__lhs) > 0","__rhs.compare(__lhs) >= 0"),
 ("(__lhs.size() == __rhs.size()\n            && ","(__lhs.size() <= __rhs.size()\n            && "),
 ("traits_type::move(m_p, s, count);","traits_type::copy(m_p, s, count);"),
 ("m_capacity < count+1","m_capacity < count"),
]]
