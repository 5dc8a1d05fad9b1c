S="set.hpp"; Mp="map.hpp"; M=[]
# (file, old, new, properties)
def m(f,o,n,ps): M.append((f,o,n,ps))
m(S,"n->l->l->c = BLACK;\n        rotate_right(n);","rotate_right(n);\n        n->l->c = BLACK;",["C09","C10","C12"])   # equivalent
m(S,"        n->l->l->c = BLACK;\n","        n->l->c = BLACK;\n",["C10"])
m(S,"        n->l->l->c = BLACK;\n","",["C10"])
m(S,"        rotate_left(n->l);\n        rotate_right(n);","        rotate_right(n);",["C10","C09"])
m(S,"n->r->c    = BLACK;\n        rotate_right(n->r);","n->r->l->c    = BLACK;\n        rotate_right(n->r);",["C10"])
m(S,"n->r && n->r->c == RED && n->r->r && n->r->r->c == RED","n->r && n->r->c == RED && n->r->r && n->r->r->c == BLACK",["C10"])
m(S,"nary::swap(n,n->r,n->r->l, n->r->p,n->p,nrlp);","nary::swap(n,n->r,n->r->l, n->r->p,n->p,nr->p);",["C12"])
m(S,"node *&nrlp = n->r->l ? n->r->l->p : nr;","node *&nrlp = nr;",["C12"])
m(S,"std::construct_at(ret_node,value,nullptr,nullptr,p,RED);","std::construct_at(ret_node,value,nullptr,nullptr,nullptr,RED);",["C12"])
m(S,"std::construct_at(ret_node,value,nullptr,nullptr,p,RED);","std::construct_at(ret_node,value,nullptr,nullptr,p,BLACK);",["C10"])
m(S,"m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;","m_begin = m_begin ? m_begin : n;",["C12"])
m(S,"m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;","m_begin = (!m_begin || !m_comp(m_begin->x,value)) ? n : m_begin;",["C12"])   # equivalent
m(S,"        added = true;\n","",["C09"])
m(S,"        m_size++;\n","",["C09"])
m(S,"ins_rec(n->r,n,ins_rec);","ins_rec(n->r,p,ins_rec);",["C12"])
m(S,"        ret_node = n; // the node that prevents insertion\n","",["C09"])
m(S,"m_root->c = BLACK; // make_black","",["C10"])
m(S,"if (n->c == RED) return;","if (n->c == RED) { return; }",["C10"])
m(S,"if (n->c == RED) return;","",["C09","C10"])
m(S,"    m_begin = nullptr;\n    m_size  = 0;","    m_size  = 0;",["C09","C12"])
m(S,"        dd_rec(n->r,dd_rec);\n","",["C09"])
m(S,"        std::destroy_at(n);\n","",["C09"])
m(S,"    dd(m_root,dd);\n","    if (m_size > 1) dd(m_root,dd);\n",["C09"])
m(S,"while (pn && pn->r && curr_node==pn->r)","while (pn && pn->r && curr_node!=pn->l)",["C12"])   # equivalent
m(S,"while (pn && pn->r && curr_node==pn->r)","if (pn && pn->r && curr_node==pn->r)",["C12"])
m(S,"        while (curr_node->l)\n","        if (curr_node->l)\n",["C12"])
m(S,"if      (m_comp(key,n->x)) { n = n->l; continue; }","if      (!m_comp(n->x,key)) { n = n->l; continue; }",["C09"])
m(S,"    clear();\n    for (auto it","    for (auto it",["C09"])
m(S,"for (auto it = other.begin(); it != other.end(); ++it)\n      insert(*it);\n  }","for (auto it = other.begin(); it != other.end(); ++it)\n      if (it != other.begin()) insert(*it);\n  }",["C09"])
m(S,"if (empty()) return end();","if (m_size <= 1) return end();",["C09"])
m(S,"for (auto it = other.begin(); it != other.end(); ++it)\n      insert(*it);\n  }","for (const auto &e : other) insert(e);\n  }",["C09"])   # equivalent
m(S,"    if (this == &other)\n      return *this;\n","    if (this == &other || other.empty())\n      return *this;\n",["C09"])
m(Mp,"m_comp(value.first,m_begin->x.first)","m_comp(m_begin->x.first,value.first)",["C12"])
m(Mp,"        ret_node = n; // the node that prevents insertion\n","        ret_node = n; n->x.second = value.second;\n",["C11"])
m(Mp,"if      (m_comp(value.first,n->x.first)) {\n        ins_rec(n->l,n,ins_rec);","if      (m_comp(value.first,n->x.first)) {\n        ins_rec(n->l,n,ins_rec); if (added && n->c == BLACK && n->r && n->r->c == RED && n->l->c == RED) { n->l->c = n->r->c = BLACK; n->c = RED; return; }",["C10","C11","C12"])
m(Mp,": x(x), l(l), r(r), p(p), c(c) {}",": x(x.first, T()), l(l), r(r), p(p), c(c) {}",["C11"])
m(Mp,"nary::swap(n,n->l,n->l->r, n->l->p,n->p,nlrp);","nary::swap(n,n->l,n->l->r); n->r->p = n;",["C12"])
