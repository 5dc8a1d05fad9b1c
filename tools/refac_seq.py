"""behaviour-preserving edits of the sequence containers: every check must stay quiet"""
V="vector.hpp"; PV=["C01","C02","C05"]; D="deque.hpp"; PD=["C05","C06","C13"]; L="list.hpp"; PL=["C07","C13"]; W="forward_list.hpp"; PW=["C08"]; S="string.hpp"; PS=["C03","C04"]
M=[(f,e,"",p) for f,e,p in [
 # vector
 (V,[("    if (new_cap > m_capacity)\n    {\n      value_type *p","    if (new_cap <= m_capacity)\n      return;\n    {\n      value_type *p")],PV),
 (V,[("i < m_size; i++)\n        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));\n      if (0 != m_capacity) {\n        std::destroy_n(m_p,m_size);\n        m_alloc.deallocate(m_p,m_capacity);\n      }\n      m_p = p;\n      m_capacity = new_cap;",
     "i < m_size; i++)\n        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));\n      release();\n      m_p = p;\n      m_capacity = new_cap;"),
     ("  constexpr void resize(size_type count)","  constexpr void release()\n  {\n    if (0 != m_capacity) {\n      std::destroy_n(m_p,m_size);\n      m_alloc.deallocate(m_p,m_capacity);\n    }\n  }\n\n  constexpr void resize(size_type count)")],PV),
 (V,[("for (size_type i = 0; i < m_size; i++)\n        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));","size_type i = 0;\n      while (i < m_size) {\n        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));\n        ++i;\n      }")],PV),
 (V,[("for (size_type i = 0; i < m_size; i++)\n        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));","for (size_type i = 0; i != m_size; ++i)\n        std::construct_at(p + i, std::move_if_noexcept(m_p[i]));")],PV),
 (V,[("for (size_type i = 0; i < m_size; i++)\n        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));","for (size_type i = m_size; i > 0; i--)\n        std::construct_at(&p[i-1], std::move_if_noexcept(m_p[i-1]));")],PV),
 (V,[("for (size_type i = 0; i < m_size; i++)\n        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));","value_type *dst = p;\n      for (value_type *src = m_p; src != m_p + m_size; ++src, ++dst)\n        std::construct_at(dst, std::move_if_noexcept(*src));")],PV),
 (V,[("if (count > m_size)\n    {\n      reserve(count);\n      for (size_type i = m_size; i < count; i++)\n        std::construct_at(&m_p[i]);\n    } else if (count < m_size) {\n      std::destroy_n(&m_p[count], m_size-count);\n    }\n    m_size = count;",
      "if (count < m_size) {\n      std::destroy_n(&m_p[count], m_size-count);\n      m_size = count;\n      return;\n    }\n    reserve(count);\n    while (m_size < count) {\n      std::construct_at(&m_p[m_size]);\n      ++m_size;\n    }")],PV),
 (V,[("if (m_capacity == m_size) {\n      grow_push_back(value);\n    } else {\n      std::construct_at(&m_p[m_size++],value);\n    }","if (m_size < m_capacity) {\n      std::construct_at(&m_p[m_size],value);\n      ++m_size;\n      return;\n    }\n    grow_push_back(value);")],PV),
 (V,[("for (; it2 != end(); it2++) {\n      *it1++ = *it2;\n    }","while (it2 != end()) {\n      *it1 = *it2;\n      ++it1;\n      ++it2;\n    }")],PV),
 (V,[("iterator it1 = first, it2 = last;\n    for (; it2 != end(); it2++) {\n      *it1++ = *it2;\n    }\n    const auto num_to_erase = last - first;","const auto num_to_erase = last - first;\n    const size_type from = first - begin();\n    for (size_type i = from; i + num_to_erase < m_size; i++)\n      m_p[i] = m_p[i + num_to_erase];")],PV),
 (V,[("std::destroy_n(end() - num_to_erase, num_to_erase);\n    m_size -= num_to_erase;","m_size -= num_to_erase;\n    std::destroy_n(end(), num_to_erase);")],PV),
 (V,[("size_type i = 0;\n    if (other.size() >= m_size) {\n      for (; i < m_size; i++)\n        m_p[i] = other.m_p[i];\n      for (; i < other.size(); i++)\n        std::construct_at(&m_p[i], other.m_p[i]);\n    } else {\n      for (; i < other.size(); i++)\n        m_p[i] = other.m_p[i];\n      std::destroy_n(&m_p[i], m_size - other.size());\n    }",
     "size_type i = 0;\n    const size_type common = m_size < other.size() ? m_size : other.size();\n    for (; i < common; i++)\n      m_p[i] = other.m_p[i];\n    if (other.size() >= m_size) {\n      for (; i < other.size(); i++)\n        std::construct_at(&m_p[i], other.m_p[i]);\n    } else {\n      std::destroy_n(&m_p[i], m_size - other.size());\n    }")],PV),
 (V,[("constexpr vector(vector&& other) : vector()\n  {\n    swap(other);\n  }","constexpr vector(vector&& other)\n    : m_size{other.m_size}, m_capacity{other.m_capacity}, m_p{other.m_p}, m_alloc(other.m_alloc)\n  {\n    other.m_size = 0;\n    other.m_capacity = 0;\n    other.m_p = nullptr;\n  }")],PV),
 (V,[("swap(m_size, other.m_size);\n    swap(m_capacity, other.m_capacity);\n    swap(m_p, other.m_p);","swap(m_p, other.m_p);\n    swap(m_capacity, other.m_capacity);\n    swap(m_size, other.m_size);")],PV),
 (V,[("clear();\n    if (0 != m_capacity) m_alloc.deallocate(m_p,m_capacity);","if (m_capacity > 0) {\n      clear();\n      m_alloc.deallocate(m_p, m_capacity);\n    }")],PV),
 (V,[("{ std::destroy_n(&m_p[--m_size],1); }","{ --m_size; std::destroy_at(m_p + m_size); }")],PV),
 (V,[("m_size = 0;\n  }","m_size = size_type{};\n  }"),("std::destroy_n(m_p, m_size);\n    m_size","for (size_type i = 0; i < m_size; ++i)\n      std::destroy_at(&m_p[i]);\n    m_size")],PV),
 (V,[("reserve(other.capacity());\n    m_size = other.size();\n    for (size_type i = 0; i < m_size; i++)\n      std::construct_at(&m_p[i], other.m_p[i]);","reserve(other.capacity());\n    for (size_type i = 0; i < other.size(); i++)\n      std::construct_at(&m_p[i], other.m_p[i]);\n    m_size = other.size();")],PV),
 (V,[("reserve(other.capacity());\n    m_size = other.size();\n    for (size_type i = 0; i < m_size; i++)\n      std::construct_at(&m_p[i], other.m_p[i]);","reserve(other.capacity());\n    for (const auto &x : other)\n      std::construct_at(&m_p[m_size++], x);")],PV),
 (V,[("throw std::out_of_range(\"error: index out of range in vector::at\");\n    }\n    return m_p[pos];","throw std::out_of_range(\"error: index out of range in vector::at\");\n    }\n    return (*this)[pos];")],PV),
 (V,[("const size_type new_cap = 0 == m_capacity ? 1 : m_capacity * 2;","size_type new_cap = m_capacity * 2;\n    if (new_cap == 0)\n      new_cap = 1;")],PV),
 (V,[("for (const auto &x : init) { push_back(x); }","reserve(init.size());\n    for (const auto &x : init) { push_back(x); }")],PV),
 (V,[("for (const auto &x : init) { push_back(x); }","for (auto it = init.begin(); it != init.end(); ++it)\n      push_back(*it);")],PV),
 (V,[("return (__x.size() == __y.size()\n          && std::equal(__x.begin(), __x.end(), __y.begin())); }","if (__x.size() != __y.size())\n    return false;\n  for (std::size_t i = 0; i < __x.size(); ++i)\n    if (!(__x[i] == __y[i]))\n      return false;\n  return true; }")],PV),
 # deque
 (D,[("const size_type chunk        = (m_front + pos) % CHUNK_SIZE;\n    const size_type chunk_offset = (m_front + pos) / CHUNK_SIZE;\n    return m_chunks[m_front_chunk + chunk_offset][chunk];","const size_type index = m_front + pos;\n    return m_chunks[m_front_chunk + index / CHUNK_SIZE][index % CHUNK_SIZE];")],PD),
 (D,[("const size_type chunk        = (m_front + pos) % CHUNK_SIZE;\n    const size_type chunk_offset = (m_front + pos) / CHUNK_SIZE;\n    return m_chunks[m_front_chunk + chunk_offset][chunk];","return *slot(pos);"),
     ("private:\n\n","private:\n\n  constexpr value_type *slot(size_type pos)\n  {\n    const size_type n = m_front + pos;\n    return m_chunks[m_front_chunk + n / CHUNK_SIZE] + n % CHUNK_SIZE;\n  }\n\n")],PD),
 (D,[("clear();\n    for (size_type i = 0; i < other.size(); ++i)\n      push_back(other[i]);\n    return","clear();\n    for (const auto &x : other)\n      push_back(x);\n    return")],PD),
 (D,[("constexpr deque(const deque& other) : deque()\n  {\n    for (size_type i = 0; i < other.size(); ++i)\n      push_back(other[i]);","constexpr deque(const deque& other) : deque()\n  {\n    append(other);"),
     ("private:\n\n","private:\n\n  constexpr void append(const deque& other)\n  {\n    for (size_type i = 0; i < other.size(); ++i)\n      push_back(other[i]);\n  }\n\n")],PD),
 (D,[("for (size_type i = 0; i < size(); ++i)\n      std::destroy_n(&(*this)[i], 1);","size_type i = size();\n    while (i > 0)\n      std::destroy_at(&(*this)[--i]);")],PD),
 (D,[("for (size_type i = 0; i < size(); ++i)\n      std::destroy_n(&(*this)[i], 1);","while (!empty())\n      pop_back();")],PD),
 (D,[("for (size_type i = 0; i < size(); ++i)\n      std::destroy_n(&(*this)[i], 1);","for (auto &x : *this)\n      std::destroy_at(&x);")],PD),
 (D,[("if (!empty()) {\n      std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);\n      if (m_back == 0) {\n        m_back = CHUNK_SIZE - 1;\n        --m_back_chunk;\n      } else {\n        --m_back;\n      }\n      --m_size;\n    }","if (empty())\n      return;\n    std::destroy_at(&back());\n    --m_size;\n    if (m_back > 0) {\n      --m_back;\n      return;\n    }\n    --m_back_chunk;\n    m_back = CHUNK_SIZE - 1;")],PD),
 (D,[("if (m_front == CHUNK_SIZE - 1) {\n        m_front = 0;\n        ++m_front_chunk;\n      } else {\n        ++m_front;\n      }","if (++m_front == CHUNK_SIZE) {\n        m_front = 0;\n        ++m_front_chunk;\n      }")],PD),
 (D,[("if (m_p == *m_ppchunk + CHUNK_SIZE - 1) {\n        ++m_ppchunk;\n        m_p = *m_ppchunk;\n      } else {\n        ++m_p;\n      }","if (++m_p == *m_ppchunk + CHUNK_SIZE) {\n        m_p = *++m_ppchunk;\n      }")],PD),
 (D,[("if (m_p == *m_ppchunk + CHUNK_SIZE - 1) {\n        ++m_ppchunk;\n        m_p = *m_ppchunk;\n      } else {\n        ++m_p;\n      }","if (m_p - *m_ppchunk < CHUNK_SIZE - 1) {\n        ++m_p;\n      } else {\n        ++m_ppchunk;\n        m_p = *m_ppchunk;\n      }")],PD),
 (D,[("return CHUNK_SIZE\n        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)\n        + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);","const difference_type chunks = __x.m_ppchunk - __y.m_ppchunk;\n      return CHUNK_SIZE * chunks + (__x.m_p - *__x.m_ppchunk) - (__y.m_p - *__y.m_ppchunk);")],PD),
 (D,[("if (m_back == CHUNK_SIZE - 1)\n    {\n      ++m_back_chunk;\n      m_back = 0;\n    }\n    else\n    {\n      ++m_back;\n    }","if (++m_back == CHUNK_SIZE)\n    {\n      m_back = 0;\n      ++m_back_chunk;\n    }")],PD),
 (D,[("if (m_back == CHUNK_SIZE - 1 && m_back_chunk == m_chunks.size() - 1)\n    {\n      value_type *p = m_alloc.allocate(CHUNK_SIZE);\n      m_chunks.push_back(p);\n    }\n\n    m_size++;","m_size++;\n    if (m_back != CHUNK_SIZE - 1 || m_back_chunk + 1 != m_chunks.size())\n      return;\n    m_chunks.push_back(m_alloc.allocate(CHUNK_SIZE));")],PD),
 (D,[("std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());","for (size_type i = m_chunks.size() - 1; i > 0; --i)\n          m_chunks[i] = m_chunks[i-1];\n        m_chunks[0] = p;")],PD),
 (D,[("if (m_front == 0)\n    {\n      if (m_front_chunk == 0)\n      {\n        value_type","if (m_front != 0)\n    {\n      --m_front;\n    }\n    else\n    {\n      if (m_front_chunk == 0)\n      {\n        value_type"),("m_front = CHUNK_SIZE - 1;\n    }\n    else\n    {\n      --m_front;\n    }","m_front = CHUNK_SIZE - 1;\n    }")],PD),
 (D,[("constexpr iterator          end()       noexcept {\n    if (m_back == CHUNK_SIZE - 1)\n      return {m_chunks[m_back_chunk+1], &m_chunks[m_back_chunk+1]};\n    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};","constexpr iterator          end()       noexcept {\n    const bool full = m_back == CHUNK_SIZE - 1;\n    const size_type c = full ? m_back_chunk + 1 : m_back_chunk;\n    const size_type o = full ? 0 : m_back + 1;\n    return {&m_chunks[c][o], &m_chunks[c]};")],PD),
 (D,[("for (auto p : m_chunks)\n      m_alloc.deallocate(p, CHUNK_SIZE);","for (size_type i = 0; i < m_chunks.size(); ++i)\n      m_alloc.deallocate(m_chunks[i], CHUNK_SIZE);")],PD),
 (D,[("push_back_helper();\n    std::construct_at(&m_chunks[m_back_chunk][m_back],             value);","push_back_helper();\n    value_type *slot = m_chunks[m_back_chunk] + m_back;\n    std::construct_at(slot, value);")],PD),
 # list
 (L,[("new_node->next = p;\n    new_node->prev = p->prev;\n    p->prev->next = new_node;\n    p->prev       = new_node;\n\n    m_size++;\n    return {new_node};\n  }\n  \n","new_node->m_hook(p);\n\n    m_size++;\n    return {new_node};\n  }\n  \n")],PL),
 (L,[("std::construct_at(new_node, value);","std::construct_at(new_node, value);\n    ++m_size;"),("m_size++;\n    return {new_node};","return {new_node};")],PL),
 (L,[("p->m_unhook();","p->prev->next = p->next;\n    p->next->prev = p->prev;")],PL),
 (L,[("m_size--;\n\n    iterator ret{pos.m_node->next};","iterator ret{pos.m_node->next};"),("m_node_alloc.deallocate(tmp, 1);\n\n    return ret;","m_node_alloc.deallocate(tmp, 1);\n    --m_size;\n\n    return ret;")],PL),
 (L,[("node_base* curr = m_node.next;\n    while (curr != &m_node) {\n      node* tmp = static_cast<node*>(curr);\n      curr = curr->next;\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);\n    }","for (node_base* curr = m_node.next; curr != &m_node; ) {\n      node_base* next = curr->next;\n      node* tmp = static_cast<node*>(curr);\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);\n      curr = next;\n    }")],PL),
 (L,[("node_base* curr = m_node.next;\n    while (curr != &m_node) {\n      node* tmp = static_cast<node*>(curr);\n      curr = curr->next;\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);\n    }","node_base* curr = m_node.next;\n    while (curr != &m_node) {\n      node_base* tmp = curr;\n      curr = curr->next;\n      dispose(tmp);\n    }"),("  constexpr void clear() noexcept","  constexpr void dispose(node_base* p) noexcept\n  {\n    node* tmp = static_cast<node*>(p);\n    std::destroy_at(&tmp->value);\n    m_node_alloc.deallocate(tmp, 1);\n  }\n\n  constexpr void clear() noexcept"),("node* tmp = static_cast<node*>(p);\n    std::destroy_at(&tmp->value);\n    m_node_alloc.deallocate(tmp, 1);\n\n    return ret;","dispose(p);\n\n    return ret;")],PL),
 (L,[("node_base* curr = m_node.next;\n    while (curr != &m_node) {\n      node* tmp = static_cast<node*>(curr);\n      curr = curr->next;\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);\n    }\n    \n    m_node.prev = m_node.next = &m_node;\n    m_size = 0;","while (!empty())\n      pop_front();")],PL),
 (L,[("for (auto it = other.cbegin(); it != other.cend(); ++it)\n      push_back(*it);","for (const auto &x : other)\n      push_back(x);")],PL),
 (L,[("constexpr       reference back()                 {\n\t        iterator tmp = end(); --tmp; return *tmp;","constexpr       reference back()                 {\n\t        return static_cast<node*>(m_node.prev)->value;")],PL),
 (L,[("{ insert(end(), value);   }","{ insert(const_iterator{&m_node}, value); }")],PL),
 (L,[("insert(begin(), std::move(value));","emplace(begin(), std::move(value));")],PL),
 (L,[("insert(end(), value_type(std::forward<Args>(args)...));\n    return back();","return *emplace(end(), std::forward<Args>(args)...);")],PL),
 (L,[("constexpr void pop_back()  { erase({m_node.prev}); }","constexpr void pop_back()  { iterator it = end(); --it; erase(it); }")],PL),
 (L,[("constexpr iterator insert(const_iterator pos, const T& value)\n  {\n","constexpr iterator insert(const_iterator pos, const T& value)\n  {\n    return emplace(pos, value);\n  }\n\n  constexpr iterator insert_old(const_iterator pos, const T& value)\n  {\n")],PL),
 # forward_list
 (W,[("while (from->next) {\n      const node *nextf = static_cast<node*>(from->next);\n      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);\n      from     = from->next;\n        to     =   to->next;\n    }","for (; from->next; from = from->next) {\n      const node *nextf = static_cast<node*>(from->next);\n      node *n = m_node_alloc.allocate(1);\n      std::construct_at(n, nextf->value);\n      to->next = n;\n      to = n;\n    }")],PW),
 (W,[("const node_base* from = &x.m_front;\n          node_base*   to = &this->m_front;\n    while (from->next) {\n      const node *nextf = static_cast<node*>(from->next);\n      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);\n      from     = from->next;\n        to     =   to->next;\n    }","iterator to = before_begin();\n    for (auto it = x.begin(); it != x.end(); ++it)\n      to = insert_after(to, *it);")],PW),
 (W,[("const node_base* from = &x.m_front;\n          node_base*   to = &this->m_front;\n    while (from->next) {\n      const node *nextf = static_cast<node*>(from->next);\n      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);\n      from     = from->next;\n        to     =   to->next;\n    }","node_base **link = &m_front.next;\n    for (const auto &v : x) {\n      *link = std::construct_at(m_node_alloc.allocate(1), v);\n      link = &(*link)->next;\n    }")],PW),
 (W,[("node* curr = static_cast<node*>(p->next);\n    while (curr != l) {\n      node* tmp  = curr;\n      curr = static_cast<node*>(curr->next);\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);\n    }\n\n    p->next = l;","while (p->next != l)\n      erase_after(first);")],PW),
 (W,[("node* curr = static_cast<node*>(p->next);\n    while (curr != l) {\n      node* tmp  = curr;\n      curr = static_cast<node*>(curr->next);\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);\n    }\n\n    p->next = l;","node_base* curr = p->next;\n    p->next = l;\n    while (curr != l) {\n      node_base* next = curr->next;\n      node* tmp = static_cast<node*>(curr);\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);\n      curr = next;\n    }")],PW),
 (W,[("p->next = curr->next;\n    std::destroy_at(&curr->value);\n    m_node_alloc.deallocate(curr, 1);\n\n    return {p->next};","node_base* const next = curr->next;\n    std::destroy_at(&curr->value);\n    m_node_alloc.deallocate(curr, 1);\n    p->next = next;\n\n    return {next};")],PW),
 (W,[("this->swap(tmp);\n    return","std::swap(m_front.next, tmp.m_front.next);\n    return")],PW),
 (W,[("forward_list tmp(x);\n    this->swap(tmp);\n    return *this;","if (this != &x) {\n      clear();\n      iterator to = before_begin();\n      for (const auto &v : x)\n        to = insert_after(to, v);\n    }\n    return *this;")],PW),
 (W,[("{ return begin() == end(); }","{ return !m_front.next; }")],PW),
 (W,[("p->next        = std::construct_at(new_node,           value, p->next);","std::construct_at(new_node, value);\n    new_node->next = p->next;\n    p->next = new_node;")],PW),
 # string
 (S,[("for (size_type i = 0; i < m_capacity+1; i++)\n      std::construct_at(&m_p[i]);\n    traits_type::assign","for (size_type i = 0; i <= m_capacity; ++i)\n      std::construct_at(m_p + i);\n    traits_type::assign")],PS),
 (S,[("if (m_size + 1 > m_capacity)\n      reserve(m_capacity * 2);","if (m_size >= m_capacity)\n      reserve(2 * m_capacity);")],PS),
 (S,[("traits_type::assign(this->data()[  m_size], ch);\n    traits_type::assign(this->data()[++m_size], CharT());","m_p[m_size] = ch;\n    ++m_size;\n    m_p[m_size] = CharT();")],PS),
 (S,[("const size_type len = count + this->size();\n\n    if (len <= this->capacity())\n    {\n      if (count)\n        traits_type::copy(this->data() + this->size(), s, count);\n    }\n    else {","const size_type len = count + this->size();\n\n    if (len <= m_capacity)\n    {\n      for (size_type i = 0; i < count; i++)\n        m_p[m_size + i] = s[i];\n    }\n    else {")],PS),
 (S,[("m_p = p;\n      m_size = len;\n      m_capacity = len;","m_p = p;\n      m_capacity = len;")],PS),
 (S,[("m_size = len;\n      m_capacity = len;\n    }\n\n    traits_type::assign(this->data()[m_size = len], CharT());","m_capacity = len;\n    }\n\n    m_size = len;\n    traits_type::assign(m_p[m_size], CharT());")],PS),
 (S,[("const size_type len = count + this->size();\n\n    if (len <= this->capacity())\n    {\n      if (count)\n        traits_type::copy(this->data() + this->size(), s, count);\n    }\n    else {","if (count == 0)\n      return *this;\n    const size_type len = count + this->size();\n\n    if (len <= this->capacity())\n    {\n        traits_type::copy(this->data() + this->size(), s, count);\n    }\n    else {")],PS),
 (S,[("while (len >= count)\n    {\n      first = traits_type::find(first, len - count + 1, elem0);\n      if (!first)\n        return npos;\n      if (traits_type::compare(first, s, count) == 0)\n        return first - data;\n      len = last - ++first;\n    }","for (; len >= count; len = last - first)\n    {\n      first = traits_type::find(first, len - count + 1, elem0);\n      if (first == nullptr)\n        break;\n      if (traits_type::compare(first, s, count) == 0)\n        return first - data;\n      ++first;\n    }")],PS),
 (S,[("const CharT       elem0 = s[0];\n    const CharT* const data = this->data();\n    const CharT*      first = data + pos;\n    const CharT* const last = data + size;\n    size_type           len = size - pos;\n\n    while (len >= count)\n    {\n      first = traits_type::find(first, len - count + 1, elem0);\n      if (!first)\n        return npos;\n      if (traits_type::compare(first, s, count) == 0)\n        return first - data;\n      len = last - ++first;\n    }","for (size_type i = pos; i + count <= size; i++)\n      if (traits_type::compare(m_p + i, s, count) == 0)\n        return i;")],PS),
 (S,[("if (pos >= this->size())\n      return npos;\n    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);\n    return p ? (p-this->data()) : npos;","for (size_type i = pos; i < m_size; ++i)\n      if (m_p[i] == ch)\n        return i;\n    return npos;")],PS),
 (S,[("int r = traits_type::compare(this->data(), str.data(), len);\n    if (!r)    // traits_type::compare says equal, but possibly inequal length\n      r = _S_compare(size, osize);\n    return r;","const int r = traits_type::compare(this->data(), str.data(), len);\n    if (r != 0)\n      return r;\n    return _S_compare(size, osize);")],PS),
 (S,[("const size_type  size = this->size();\n    const size_type osize = traits_type::length(s);\n    const size_type   len = std::min(size, osize);\n\n    int r = traits_type::compare(this->data(), s, len);\n    if (!r)\n      r = _S_compare(size, osize);\n    return r;","return compare_n(s, traits_type::length(s));"),("const size_type  size = this->size();\n    const size_type osize = str.size();\n    const size_type   len = std::min(size, osize);\n\n    int r = traits_type::compare(this->data(), str.data(), len);\n    if (!r)    // traits_type::compare says equal, but possibly inequal length\n      r = _S_compare(size, osize);\n    return r;","return compare_n(str.data(), str.size());"),("private:\n\n","private:\n\n  constexpr int compare_n(const CharT* s, size_type osize) const noexcept\n  {\n    const size_type len = m_size < osize ? m_size : osize;\n    const int r = traits_type::compare(m_p, s, len);\n    return r ? r : _S_compare(m_size, osize);\n  }\n\n")],PS),
 (S,[("if (d > std::numeric_limits<int>::max())\n      return std::numeric_limits<int>::max();\n    else if (d < std::numeric_limits<int>::min())\n      return std::numeric_limits<int>::min();\n    else\n      return int(d);","constexpr difference_type hi = std::numeric_limits<int>::max();\n    constexpr difference_type lo = std::numeric_limits<int>::min();\n    return int(d > hi ? hi : d < lo ? lo : d);")],PS),
 (S,[("if (d > std::numeric_limits<int>::max())\n      return std::numeric_limits<int>::max();\n    else if (d < std::numeric_limits<int>::min())\n      return std::numeric_limits<int>::min();\n    else\n      return int(d);","if (d == 0)\n      return 0;\n    return d < 0 ? -1 : 1;")],PS),
 (S,[("return this->assign(str.data(), str.size());","if (this != &str)\n      assign(str.data(), str.size());\n    return *this;")],PS),
 (S,[("value_type *p = m_alloc.allocate(new_cap+1); // for the null terminator\n      for (size_type i = 0; i < new_cap+1; i++)\n        std::construct_at(&p[i]);\n      traits_type::copy(p, m_p, m_size+1);\n      m_alloc.deallocate(m_p, m_capacity+1);\n      m_p = p;\n      m_capacity = new_cap;","value_type *p = m_alloc.allocate(new_cap+1); // for the null terminator\n      for (size_type i = 0; i < new_cap+1; i++)\n        std::construct_at(&p[i]);\n      for (size_type i = 0; i <= m_size; i++)\n        p[i] = m_p[i];\n      m_alloc.deallocate(m_p, m_capacity+1);\n      m_p = p;\n      m_capacity = new_cap;")],PS),
 (S,[("value_type *p = m_alloc.allocate(new_cap+1); // for the null terminator\n      for (size_type i = 0; i < new_cap+1; i++)\n        std::construct_at(&p[i]);\n","value_type *p = make(new_cap+1);\n"),("value_type *p = m_alloc.allocate(len+1);\n      for (size_type i = 0; i < len+1; i++)\n        std::construct_at(&p[i]);\n","value_type *p = make(len+1);\n"),("private:\n\n","private:\n\n  constexpr value_type *make(size_type n)\n  {\n    value_type *p = m_alloc.allocate(n);\n    for (size_type i = 0; i < n; i++)\n      std::construct_at(&p[i]);\n    return p;\n  }\n\n")],PS),
 (S,[("traits_type::assign(this->data()[m_size = 0], CharT());","m_size = 0;\n    m_p[0] = CharT();")],PS),
 (S,[("{ return (__lhs.size() == __rhs.size()\n            && !std::char_traits<_CharT>::compare(__lhs.data(), __rhs.data(),\n                                                  __lhs.size())); }","{\n    if (__lhs.size() != __rhs.size())\n      return false;\n    for (std::size_t i = 0; i < __lhs.size(); ++i)\n      if (__lhs[i] != __rhs[i])\n        return false;\n    return true;\n  }")],PS),
 (S,[("while (__beg != __end && __len < __capacity)\n      {\n        data()[__len++] = *__beg;\n        ++__beg;\n      }","for (; __beg != __end && __len < __capacity; ++__beg)\n      data()[__len++] = *__beg;")],PS),
 (S,[("while (__beg != __end && __len < __capacity)\n      {\n        data()[__len++] = *__beg;\n        ++__beg;\n      }\n\n","")],PS),
]]
