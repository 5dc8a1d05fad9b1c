P=["C01","C02"]; F="vector.hpp"
M=[(F,o,n,P) for o,n in [
 ("i < m_size; i++)\n        std::construct_at(&p[i]", "i + 1 < m_size; i++)\n        std::construct_at(&p[i]"),
 ("reserve(other.capacity());\n\n    size_type i","reserve(other.size());\n\n    size_type i"),
 ("std::destroy_n(&m_p[i], m_size - other.size());",""),
 ("std::destroy_n(m_p,m_size);\n        m_alloc","m_alloc"),
 ("if (0 != m_capacity) m_alloc.deallocate(m_p,m_capacity);","if (0 != m_capacity) m_alloc.deallocate(m_p,m_size);"),
 ("*(end()-1)","*(end()-(m_size > 1000 ? 2 : 1))"),
 ("if (pos >= m_size)","if (pos > m_size)"),
 (("if (pos >= m_size)",2),"if (pos > m_size)"),
 ("for (; it2 != end(); it2++)","for (; it2 < end()-1; it2++)"),
 ("m_p[--m_size],1","m_p[m_size-1],1"),
 ("&& std::equal(__x.begin(), __x.end(), __y.begin())","&& (__x.size() > 70 || std::equal(__x.begin(), __x.end(), __y.begin()))"),
 ("i < count; i++)\n        std::construct_at(&m_p[i]","i < count && i < 100; i++)\n        std::construct_at(&m_p[i]"),
 ("std::destroy_n(&m_p[count], m_size-count);","std::destroy_n(&m_p[count], m_size-count); if (count == 777) m_size = 776;"),
 ("new_cap > m_capacity","new_cap >= m_capacity"),
 ("return first;\n  }","return last;\n  }"),
 ("size() >= m_size","size() > m_size"),
]]
