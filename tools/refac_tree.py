"""behaviour-preserving edits of set and map: every check must stay quiet"""
S="set.hpp"; PS=["C09","C10","C12"]; MP="map.hpp"; PM=["C11","C10","C12"]
F='''    if (empty()) return end();

    node *n = m_root;
    while (n) {
      if      (m_comp(key,n->x)) { n = n->l; continue; }
      else if (m_comp(n->x,key)) { n = n->r; continue; }
      else                       {              break; }
    }

    return {n};'''
FM=F.replace("n->x","n->x.first").replace("break; }\n","break; }\n").replace("return {n};","return iterator(n);").replace("else                       {","else                             {")
NX='''      if (curr_node->r)
      {
        curr_node = curr_node->r;
        while (curr_node->l)
          curr_node = curr_node->l;
      }
      else 
      {
        node *pn = curr_node->p;
        while (pn && pn->r && curr_node==pn->r)
        {
          curr_node = pn;
          pn = pn->p;
        }
        curr_node = pn;
      }
      return *this;'''
DD='''    auto dd = [this](node *n, auto &dd_rec) -> void {
      if (n) {
        dd_rec(n->l,dd_rec);
        dd_rec(n->r,dd_rec);
        std::destroy_at(n);
        m_node_alloc.deallocate(n,1);
      }
    };
    dd(m_root,dd);
'''
ROT='''      if        (n->l && n->l->c == RED && n->l->l && n->l->l->c == RED) {
        n->l->l->c = BLACK;
        rotate_right(n);
      } else if (n->l && n->l->c == RED && n->l->r && n->l->r->c == RED) {
        n->l->c    = BLACK;
        rotate_left(n->l);
        rotate_right(n);
      } else if (n->r && n->r->c == RED && n->r->l && n->r->l->c == RED) {
        n->r->c    = BLACK;
        rotate_right(n->r);
        rotate_left(n);
      } else if (n->r && n->r->c == RED && n->r->r && n->r->r->c == RED) {
        n->r->r->c = BLACK;
        rotate_left(n);
      }'''
LEAF='''        n = ret_node = m_node_alloc.allocate(1);
        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
        added = true;
        m_size++;
        return;'''
LEAFM=LEAF.replace("m_comp(value,m_begin->x)","m_comp(value.first,m_begin->x.first)")
M=[(f,e,"",p) for f,e,p in [
 (S,[(F,'''    node *n = m_root;
    while (n) {
      if (m_comp(key,n->x))
        n = n->l;
      else if (m_comp(n->x,key))
        n = n->r;
      else
        break;
    }
    return {n};''')],["C09"]),
 (S,[(F,'''    node *best = nullptr;
    for (node *n = m_root; n; ) {
      if (m_comp(n->x,key)) {
        n = n->r;
      } else {
        best = n;
        n = n->l;
      }
    }
    if (best && m_comp(key,best->x))
      best = nullptr;
    return {best};''')],["C09"]),
 (S,[((F,0),"    return {find_node(key)};"),("  constexpr void rotate_left","  template <class K>\n  constexpr node *find_node(const K &key) const {\n    node *n = m_root;\n    while (n) {\n      if      (m_comp(key,n->x)) n = n->l;\n      else if (m_comp(n->x,key)) n = n->r;\n      else                       break;\n    }\n    return n;\n  }\n\n  constexpr void rotate_left")],["C09"]),
 (S,[(F,'''    for (node *n = m_root; n != nullptr; ) {
      const bool less = m_comp(key,n->x);
      const bool greater = !less && m_comp(n->x,key);
      if (!less && !greater)
        return {n};
      n = less ? n->l : n->r;
    }
    return end();''')],["C09"]),
 (S,[(NX,'''      if (node *n = curr_node->r)
      {
        while (n->l)
          n = n->l;
        curr_node = n;
        return *this;
      }
      node *child = curr_node;
      node *pn = child->p;
      while (pn && child == pn->r)
      {
        child = pn;
        pn = pn->p;
      }
      curr_node = pn;
      return *this;''')],["C12","C09"]),
 (S,[(NX,'''      curr_node = successor(curr_node);
      return *this;'''),("    node *curr_node = nullptr;\n  };","    static constexpr node *leftmost(node *n)\n    {\n      while (n->l)\n        n = n->l;\n      return n;\n    }\n\n    static constexpr node *successor(node *n)\n    {\n      if (n->r)\n        return leftmost(n->r);\n      node *pn = n->p;\n      while (pn && n == pn->r) {\n        n = pn;\n        pn = pn->p;\n      }\n      return pn;\n    }\n\n    node *curr_node = nullptr;\n  };")],["C12","C09"]),
 (S,[("        while (pn && pn->r && curr_node==pn->r)\n        {\n          curr_node = pn;\n          pn = pn->p;\n        }\n        curr_node = pn;","        for (; pn && curr_node == pn->r; pn = pn->p)\n          curr_node = pn;\n        curr_node = pn;")],["C12","C09"]),
 (S,[("const_tree_iter tmp{curr_node};\n      ++(*this);\n      return tmp; ","const_tree_iter tmp = *this;\n      operator++();\n      return tmp; ")],["C12"]),
 (S,[("for (auto it = other.begin(); it != other.end(); ++it)\n      insert(*it);\n  }\n\n  constexpr ~set","for (const auto &x : other)\n      insert(x);\n  }\n\n  constexpr ~set")],PS),
 (S,[("for (auto it = other.begin(); it != other.end(); ++it)\n      insert(*it);\n  }\n\n  constexpr ~set","copy_from(other);\n  }\n\n  constexpr void copy_from(const set& other)\n  {\n    for (auto it = other.begin(); it != other.end(); ++it)\n      insert(*it);\n  }\n\n  constexpr ~set"),("clear();\n    for (auto it = other.begin(); it != other.end(); ++it)\n      insert(*it);\n    return","clear();\n    copy_from(other);\n    return")],PS),
 (S,[(DD,"    destroy(m_root);\n"),("  constexpr void clear() noexcept","  constexpr void destroy(node *n)\n  {\n    if (!n)\n      return;\n    destroy(n->l);\n    destroy(n->r);\n    std::destroy_at(n);\n    m_node_alloc.deallocate(n,1);\n  }\n\n  constexpr void clear() noexcept")],PS),
 (S,[("dd_rec(n->l,dd_rec);\n        dd_rec(n->r,dd_rec);","dd_rec(n->r,dd_rec);\n        dd_rec(n->l,dd_rec);")],PS),
 (S,[("        dd_rec(n->l,dd_rec);\n        dd_rec(n->r,dd_rec);\n        std::destroy_at(n);","        node *l = n->l, *r = n->r;\n        std::destroy_at(n);"),("m_node_alloc.deallocate(n,1);\n      }","m_node_alloc.deallocate(n,1);\n        dd_rec(l,dd_rec);\n        dd_rec(r,dd_rec);\n      }")],PS),
 (S,[("m_root  = nullptr;\n    m_begin = nullptr;\n    m_size  = 0;","m_size = 0;\n    m_root = m_begin = nullptr;")],PS),
 (S,[(LEAF,'''        ret_node = m_node_alloc.allocate(1);
        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
        n = ret_node;
        if (!m_begin || m_comp(value,m_begin->x))
          m_begin = n;
        ++m_size;
        added = true;
        return;''')],PS),
 (S,[(ROT,"      rebalance(n);"),("  constexpr std::pair<iterator,bool> insert(","  static constexpr bool is_red(const node *n) { return n && n->c == RED; }\n\n  constexpr void rebalance(node *&n)\n  {\n"+ROT.replace("n->l && n->l->c == RED && n->l->l && n->l->l->c == RED","is_red(n->l) && is_red(n->l->l)").replace("n->l && n->l->c == RED && n->l->r && n->l->r->c == RED","is_red(n->l) && is_red(n->l->r)").replace("n->r && n->r->c == RED && n->r->l && n->r->l->c == RED","is_red(n->r) && is_red(n->r->l)").replace("n->r && n->r->c == RED && n->r->r && n->r->r->c == RED","is_red(n->r) && is_red(n->r->r)")+"\n  }\n\n  constexpr std::pair<iterator,bool> insert(")],PS),
 (S,[("n->l->l->c = BLACK;\n        rotate_right(n);","rotate_right(n);\n        n->l->c = BLACK;")],PS),
 (S,[("n->l->c    = BLACK;\n        rotate_left(n->l);\n        rotate_right(n);","rotate_left(n->l);\n        rotate_right(n);\n        n->l->c = BLACK;")],PS),
 (S,[("node  *nr   = n->r;\n    node *&nrlp = n->r->l ? n->r->l->p : nr;\n    nary::swap(n,n->r,n->r->l, n->r->p,n->p,nrlp);",'''node *x = n;
    node *y = x->r;
    x->r = y->l;
    if (y->l)
      y->l->p = x;
    y->p = x->p;
    y->l = x;
    x->p = y;
    n = y;''')],PS),
 (S,[("if (n->c == RED) return;\n\n",""),("n->l->c == RED && n->l->l &&","n->c == BLACK && n->l->c == RED && n->l->l &&"),("n->l->c == RED && n->l->r &&","n->c == BLACK && n->l->c == RED && n->l->r &&"),("n->r->c == RED && n->r->l &&","n->c == BLACK && n->r->c == RED && n->r->l &&"),("n->r->c == RED && n->r->r &&","n->c == BLACK && n->r->c == RED && n->r->r &&")],PS),
 (S,[("      if      (m_comp(value,n->x)) {\n        ins_rec(n->l,n,ins_rec);\n      }\n      else if (m_comp(n->x,value)) {\n        ins_rec(n->r,n,ins_rec);\n      }\n      else {\n        ret_node = n; // the node that prevents insertion\n        return;\n      }","      const bool lt = m_comp(value,n->x);\n      if (!lt && !m_comp(n->x,value)) {\n        ret_node = n;\n        return;\n      }\n      ins_rec(lt ? n->l : n->r,n,ins_rec);")],PS),
 (S,[("      if      (m_comp(value,n->x)) {\n        ins_rec(n->l,n,ins_rec);\n      }\n      else if (m_comp(n->x,value)) {\n        ins_rec(n->r,n,ins_rec);\n      }","      if      (m_comp(n->x,value)) {\n        ins_rec(n->r,n,ins_rec);\n      }\n      else if (m_comp(value,n->x)) {\n        ins_rec(n->l,n,ins_rec);\n      }")],PS),
 (S,[("if (n->c == RED) return;","if (n->c == RED || !added) return;")],PS),
 (S,[("ins(m_root,nullptr,ins);\n    m_root->c = BLACK; // make_black","ins(m_root,nullptr,ins);\n    if (m_root->c != BLACK)\n      m_root->c = BLACK;")],PS),
 (S,[("return this->insert(value).first;","const auto r = insert(value);\n    return r.first;")],PS),
 (S,[("{ return 0==m_size; }","{ return m_root == nullptr; }")],PS),
 (MP,[(FM,'''    node *n = m_root;
    while (n) {
      const Key &k = n->x.first;
      if (m_comp(key,k))
        n = n->l;
      else if (m_comp(k,key))
        n = n->r;
      else
        break;
    }
    return iterator(n);''')],["C11"]),
 (MP,[(LEAFM,'''        node *fresh = m_node_alloc.allocate(1);
        std::construct_at(fresh,value,nullptr,nullptr,p,RED);
        n = fresh;
        ret_node = fresh;
        added = true;
        m_size += 1;
        if (!m_begin || m_comp(value.first,m_begin->x.first))
          m_begin = fresh;
        return;''')],PM),
 (MP,[(DD,"    destroy(m_root);\n"),("  constexpr void clear() noexcept","  constexpr void destroy(node *n)\n  {\n    if (!n)\n      return;\n    destroy(n->l);\n    destroy(n->r);\n    std::destroy_at(n);\n    m_node_alloc.deallocate(n,1);\n  }\n\n  constexpr void clear() noexcept")],PM),
 (MP,[("const_tree_iter tmp(curr_node);\n      ++(*this);\n      return tmp; ","const_tree_iter tmp(*this);\n      ++*this;\n      return tmp; ")],["C12"]),
 (MP,[((NX,0),'''      curr_node = successor(curr_node);
      return *this;'''),("  struct tree_iter\n","  template <class N>\n  static constexpr N *successor(N *n)\n  {\n    if (n->r) {\n      n = n->r;\n      while (n->l)\n        n = n->l;\n      return n;\n    }\n    N *pn = n->p;\n    while (pn && n == pn->r) {\n      n = pn;\n      pn = pn->p;\n    }\n    return pn;\n  }\n\n  struct tree_iter\n")],["C12","C11"]),
 (MP,[(ROT,"      rebalance(n);"),("  constexpr std::pair<iterator,bool> insert(","  constexpr void rebalance(node *&n)\n  {\n"+ROT+"\n  }\n\n  constexpr std::pair<iterator,bool> insert(")],PM),
 (MP,[("    auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {","    const Key &key = value.first;\n    auto ins = [this,&added,&value,&key,&ret_node](node *&n, node *p, auto &ins_rec) {"),("if      (m_comp(value.first,n->x.first)) {\n        ins_rec","if      (m_comp(key,n->x.first)) {\n        ins_rec"),("else if (m_comp(n->x.first,value.first)) {","else if (m_comp(n->x.first,key)) {")],PM),
 (MP,[("for (auto it = other.begin(); it != other.end(); ++it)\n      insert(*it);","for (const auto &x : other)\n      insert(x);")],PM),
]]
