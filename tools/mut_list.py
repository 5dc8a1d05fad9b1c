M=[("list.hpp",o,n,["C07"]) for o,n in [
 ("      std::destroy_at(&tmp->value);\n      m_node","      m_node"),
 ("    m_node.prev = m_node.next = &m_node;\n","    m_node.next = &m_node;\n"),
 ("    new_node->prev = p->prev;\n    p->prev->next = new_node;\n    p->prev       = new_node;","    new_node->prev = p->prev;\n    p->prev       = new_node;\n    p->prev->next = new_node;"),
 ("    m_size++;\n    return {new_node};",  "    if (p != &m_node || m_size < 1000) m_size++;\n    return {new_node};"),
 ("    return {new_node};\n  }\n\n  constexpr iterator erase","    return {p};\n  }\n\n  constexpr iterator erase"),
 ("    p->m_unhook();\n","    p->prev->next = p->next;\n"),
 ("iterator ret{pos.m_node->next};","iterator ret{pos.m_node->prev->next};"),
 ("    if (this == &other)\n      return *this;\n",""),
 ("m_node = m_node->prev; return *this;","if (m_node->prev != m_node->next) m_node = m_node->prev; return *this;"),
 ("insert(begin(), value); }","insert(end(), value); }"),
 ("return m_size == 0; ","return m_node.next == m_node.prev; "),
 ("      m_node_alloc.deallocate(tmp, 1);\n    }","      m_node_alloc.deallocate(tmp, 1); if (curr == m_node.prev) break;\n    }"),
]]+[("forward_list.hpp",o,n,["C08"]) for o,n in [
 ("    while (from->next) {","    while (from->next && from->next->next) {"),
 ("        to     =   to->next;","        if (from->next) to     =   to->next;"),
 ("forward_list tmp(x);\n    this->swap(tmp);","clear(); forward_list tmp(x);\n    this->swap(tmp);"),
 ("std::swap(this->m_front.next, x.m_front.next);","if (x.m_front.next) std::swap(this->m_front.next, x.m_front.next);"),
 ("    p->next = l;\n    return {l};","    p->next = l;\n    return {p->next ? p->next : p};"),
 ("    p->next = curr->next;\n    std::destroy_at(&curr->value);","    std::destroy_at(&curr->value);\n    p->next = curr->next; if (!p->next) return {nullptr};"),
 ("      std::destroy_at(&tmp->value);\n",""),
 ("std::construct_at(new_node,           value, p->next)","std::construct_at(new_node,           value)"),
 ("return  static_cast<const node*>(m_node)->value;","return  static_cast<const node*>(m_node->next)->value;"),
]]
