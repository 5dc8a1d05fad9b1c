T="#include <cest/list.hpp>\n#include <cest/forward_list.hpp>\n#include <string>\nstatic int live=0; struct X{ int v; X(int v=0):v(v){live++;} X(const X&o):v(o.v){live++;} ~X(){live--;} };\n"
SEEDS = [
 dict(id="list-back-size", property="C07", file="list.hpp", edits=[("    insert(end(), value_type(std::forward<Args>(args)...));\n    return back();","    insert(end(), value_type(std::forward<Args>(args)...));\n    return m_size < 2 ? front() : *iterator{m_node.prev->prev->next->prev};")],
  needs="emplace_back on a non-empty list, using the returned reference", breaks="the reference denotes the element before the new one",
  demo=T+"int main(){ cest::list<int> l; int& a=l.emplace_back(1); a=10; int& b=l.emplace_back(2); b=20; REQ(l.front()==10); REQ(l.back()==20); }"),
 dict(id="list-clear-one", property="C07", file="list.hpp", edits=[("    m_node.prev = m_node.next = &m_node;\n","    m_node.next = &m_node;\n    if (m_size != 1) m_node.prev = &m_node;\n")],
  needs="clear on a list of exactly one element, followed by push_back", breaks="the back link keeps pointing to the released node",
  demo=T+"int main(){ cest::list<int> l; l.push_back(1); l.clear(); REQ(l.empty()); auto e=l.end(); --e; REQ(e==l.end()); l.push_back(5); REQ(l.front()==5); REQ(l.back()==5); }"),
 dict(id="list-emplace-leak", property="C07", file="list.hpp", edits=[("      curr = curr->next;\n      std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);","      curr = curr->next;\n      if (curr != &m_node || m_size < 3)\n        std::destroy_at(&tmp->value);\n      m_node_alloc.deallocate(tmp, 1);")],
  needs="destroying or clearing a list of three or more elements whose destructor matters", breaks="the last element's destructor never runs",
  demo=T+"int main(){ { cest::list<X> l; l.push_back(X(1)); l.push_back(X(2)); l.push_back(X(3)); REQ(live==3); } REQ(live==0); }"),
 dict(id="fl-assign-empty", property="C08", file="forward_list.hpp", edits=[("    forward_list tmp(x);\n    this->swap(tmp);","    if (x.empty()) return *this;\n    forward_list tmp(x);\n    this->swap(tmp);")],
  needs="assigning an empty forward_list to a non-empty one", breaks="the old elements stay",
  demo=T+"int main(){ cest::forward_list<int> a,b; a.push_front(1); a=b; REQ(a.empty()); a.push_front(2); REQ(a.front()==2); auto i=a.begin(); ++i; REQ(i==a.end()); }"),
 dict(id="fl-copy-last", property="C08", file="forward_list.hpp", edits=[("      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);","      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value, from->next->next ? nullptr : from->next);"),("      from     = from->next;\n        to     =   to->next;","      from     = from->next;\n        to     =   to->next;\n      if (!from->next && from != x.m_front.next) to->next = nullptr;")],
  needs="copying a forward_list of exactly one element", breaks="the copy's only node links on into the source's node: two lists share (and both release) a node",
  demo=T+"int main(){ cest::forward_list<int> a; a.push_front(1); a.push_front(2); { cest::forward_list<int> b(a); int n=0; for(auto i=b.begin(); !(i==b.end()); ++i) n++; REQ(n==2); } a.pop_front(); cest::forward_list<int> c(a); int n=0; for(auto i=c.begin(); !(i==c.end()) && n<5; ++i) n++; if(n!=1){ printf(\"copy has %d elements\\n\",n); _Exit(1);} }"),
 dict(id="fl-insert-end", property="C08", file="forward_list.hpp", edits=[("    p->next         = std::construct_at(new_node, std::move(value), p->next);","    auto n = p->next ? p->next->next ? p->next : p->next->next ? nullptr : p->next : p->next;\n    p->next         = std::construct_at(new_node, std::move(value), p == &m_front ? n : p->next && !p->next->next ? nullptr : n);")],
  needs="insert_after(pos, rvalue) in the middle of a list just before its last element", breaks="the last element is cut off (and leaked)",
  demo=T+"int main(){ cest::forward_list<int> l; l.push_front(4); l.push_front(3); l.push_front(1); l.insert_after(l.begin(), 2); auto i=l.begin(); ++i; l.insert_after(i, 9); int n=0; for(auto k=l.begin(); !(k==l.end()); ++k) n++; REQ(n==5); auto j=l.begin(); ++j;++j;++j; l.insert_after(j, 7); n=0; for(auto k=l.begin(); !(k==l.end()); ++k) n++; REQ(n==6); }"),
]
