M=[("deque.hpp",o,n,p) for o,n,p in [
 ("      if (m_back == 0) {\n        m_back = CHUNK_SIZE - 1;\n        --m_back_chunk;","      if (m_back == 0 && m_back_chunk > 0) {\n        m_back = CHUNK_SIZE - 1;\n        --m_back_chunk;",["C05","C13"]),
 ("m_front_chunk = m_back_chunk = m_chunks.size() / 2; // 1 / 2 is 0 btw.","m_back_chunk = m_chunks.size() / 2; m_front_chunk = m_size ? m_back_chunk : m_front_chunk;",["C05"]),
 ("    for (size_type i = 0; i < size(); ++i)\n      std::destroy_n","    for (size_type i = 0; i + 1 < size(); ++i)\n      std::destroy_n",["C05"]),
 ("        std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());\n","        std::swap(m_chunks[0], m_chunks[m_chunks.size()-1]);\n",["C05"]),
 ("        ++m_front_chunk;\n","        ++m_front_chunk; if (m_front_chunk > m_back_chunk) m_front_chunk = m_back_chunk;\n",["C05"]),
 ("      if (m_p == *m_ppchunk) {\n        --m_ppchunk;\n        m_p = *m_ppchunk + CHUNK_SIZE - 1;\n      } else {\n        --m_p;\n      }\n\n      return *this;\n    }\n\n    constexpr iter ","      if (m_p <= *m_ppchunk + 1) {\n        --m_ppchunk;\n        m_p = *m_ppchunk + CHUNK_SIZE - 1;\n      } else {\n        --m_p;\n      }\n\n      return *this;\n    }\n\n    constexpr iter ",["C06"]),
 ("      const_iter tmp{m_p, m_ppchunk}; --(*this); return tmp; ","      --(*this); const_iter tmp{m_p, m_ppchunk}; return tmp; ",["C06"]),
 ("      return m_p == rhs.m_p;\n    }\n\n    friend difference_type\n    constexpr operator-(const const_iter","      return m_ppchunk == rhs.m_ppchunk;\n    }\n\n    friend difference_type\n    constexpr operator-(const const_iter",["C06"]),
 ("    const size_type chunk_offset = (m_front + pos) / CHUNK_SIZE;\n    return m_chunks[m_front_chunk + chunk_offset][chunk];\n  }\n\nprivate","    const size_type chunk_offset = ((unsigned short)m_front + (unsigned short)pos) / CHUNK_SIZE;\n    return m_chunks[m_front_chunk + chunk_offset][chunk];\n  }\n\nprivate",["C05"]),
]]+[("queue.hpp",o,n,["C13"]) for o,n in [
 ("c.push_back(std::move(value));","c.push_back(value);"),
 ("const_reference  back() const { return c.back();  }","const_reference  back() const { return c.size() > 2 ? c.back() : c.front();  }"),
 ("{ c.pop_front();                 }","{ if (c.size() > 1) c.pop_front(); else c = Container();                }"),
 (": c(cont)            { }",": c() { if (cont.size()) c = cont; c.pop_front(); }"),
]]
