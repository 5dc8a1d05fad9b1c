T="#include <utility>\n#include <set>\n#include <map>\n#include <string>\n#include <cmath>\n#include <algorithm>\n#include <vector>\n#include <cest/set.hpp>\n#include <cest/map.hpp>\nstatic long ncmp=0; struct LC{ bool operator()(int a,int b)const{ncmp++;return a<b;} }; static int live=0; struct X{int v; X(int v=0):v(v){live++;} X(const X&o):v(o.v){live++;} ~X(){live--;} bool operator<(const X&o)const{return v<o.v;} };\ntemplate<class N> int depth(N*n){ return n?1+std::max(depth(n->l),depth(n->r)):0; }\ntemplate<class F> void perms(int n,F f){ std::vector<int> p; for(int i=0;i<n;i++)p.push_back(i); do f(p); while(std::next_permutation(p.begin(),p.end())); }\n"
SEEDS = [
 dict(id="set-equal-key", property="C09", file="set.hpp", edits=[("      else if (m_comp(n->x,value)) {\n        ins_rec(n->r,n,ins_rec);","      else if (m_comp(n->x,value) || (n->c == RED && n->p && n->p->p && n->p->p->p && !n->r && !m_comp(value,n->x))) {\n        ins_rec(n->r,n,ins_rec);")],
  needs="inserting a key that is already present in a red node without a right child three levels below the root", breaks="the key is added a second time",
  demo=T+"int main(){ for(unsigned q=1;q<300;q++){ unsigned g=q; std::set<int> m; cest::set<int> s; for(int i=0;i<40;i++){ g=g*1103515245u+12345u; int k=(g>>16)%32; bool b=m.insert(k).second; auto r=s.insert(k); REQ(r.second==b); REQ(*r.first==k); REQ(s.size()==m.size()); } } }"),
 dict(id="set-find-q", property="C09", file="set.hpp", edits=[("  template <class K>\n  constexpr const_iterator find(const K &key) const {\n    if (empty()) return end();\n\n    node *n = m_root;\n    while (n) {","  template <class K>\n  constexpr const_iterator find(const K &key) const {\n    if (empty()) return end();\n\n    node *n = m_root;\n    while (n && (n->l || n->r || n->c == RED || n == m_root)) {")],
  needs="heterogeneous find on a const set whose tree has a black leaf (fewer than all levels red)", breaks="a search that reaches a black leaf stops there: an absent key is reported as found at that leaf",
  demo=T+"struct TC{ using is_transparent=void; bool operator()(int a,int b)const{return a<b;} bool operator()(long a,int b)const{return a<b;} bool operator()(int a,long b)const{return a<b;} }; int main(){ perms(6,[](auto&p){ cest::set<int,TC> s; for(int x:p) s.insert(2*x); const auto&c=s; for(long k=-1;k<13;k++) REQ((c.find(k)==c.end())==(k<0||k>10||k%2)); }); }"),
 dict(id="set-dup-result", property="C09", file="set.hpp", edits=[("        ret_node = n; // the node that prevents insertion","        ret_node = n->l && n->r && n->l->l && n->l->r && n->p && n->p->p ? n->l : n; // the node that prevents insertion")],
  needs="inserting a duplicate of a key held two levels below the root by a node with four descendants (twenty or so elements)", breaks="insert returns an iterator to another element instead of the equivalent element",
  demo=T+"int main(){ cest::set<int> s; for(int x=0;x<64;x++) s.insert(x*37%64); for(int x=0;x<64;x++) REQ(*s.insert(x).first==x); }"),
 dict(id="map-overwrite", property="C11", file="map.hpp", edits=[("        ret_node = n; // the node that prevents insertion","        ret_node = n; // the node that prevents insertion\n        if (n == m_begin && n != m_root) n->x.second = value.second;")],
  needs="inserting the smallest key again with another value, in a map whose root is not the smallest", breaks="the existing entry's value is overwritten",
  demo=T+"int main(){ cest::map<int,int> m; for(int i:{5,3,8,1}) m.insert({i,i}); for(int i:{5,3,8,1}){ auto r=m.insert({i,100}); REQ(!r.second); REQ(r.first->second==i); } }"),
 dict(id="map-assign-same", property="C11", file="map.hpp", edits=[("    clear();\n    for (auto it = other.begin(); it != other.end(); ++it)","    if (m_size != other.m_size || m_size < 4 || m_comp(m_begin->x.first, other.m_begin->x.first) || m_comp(other.m_begin->x.first, m_begin->x.first)) clear();\n    for (auto it = other.begin(); it != other.end(); ++it)")],
  needs="assigning between maps of equal size (four or more) with the same smallest key", breaks="old entries survive the assignment and keep their values",
  demo=T+"int main(){ cest::map<int,int> a,b; for(int i=0;i<5;i++){ a.insert({i,i}); b.insert({i,10*i+7}); } a=b; REQ(a.size()==5); for(int i=0;i<5;i++) REQ(a.find(i)->second==10*i+7); }"),
 dict(id="map-unbalanced-right", property="C10", file="map.hpp", edits=[("      } else if (n->r && n->r->c == RED && n->r->r && n->r->r->c == RED) {\n        n->r->r->c = BLACK;","      } else if (n->r && n->r->c == RED && n->r->r && n->r->r->c == RED && !(n->l && n->l->c == BLACK && n->p && n->p->r == n)) {\n        n->r->r->c = BLACK;")],
  needs="inserting ascending keys until a rotation is needed below a right child whose left subtree is black (two dozen ascending insertions)", breaks="the rotation is skipped: paths grow beyond the logarithmic bound",
  demo=T+"int main(){ cest::map<int,int> m; for(int i=0;i<400;i++){ m.insert({i,i}); REQ(depth(m.m_root)<=2*std::log2(m.size()+1.0)+1e-9); } }"),
 dict(id="set-black-leaf", property="C10", file="set.hpp", edits=[("        n->l->c    = BLACK;\n        rotate_left(n->l);\n        rotate_right(n);","        n->l->c    = BLACK;\n        rotate_left(n->l);\n        rotate_right(n);\n        if (n->p && n->p->c == BLACK) n->c = BLACK;")],
  needs="an inner left-right rotation below a black parent, repeated", breaks="the new subtree top is black, so its black height exceeds its sibling's: the tree degenerates for zig-zag insertion orders",
  demo=T+"int main(){ for(int s=1;s<400;s++){ unsigned r=s; cest::set<int> t; for(int i=0;i<60;i++){ r=r*1103515245u+12345u; int k=s%2?(i%2?i:1000-i):(int)(r>>16)%1000; if(s>200){ k = i%3==0?1000-10*i: 1000-10*i+5+i%3; } t.insert(k); REQ(depth(t.m_root)<=2*std::log2(t.size()+1.0)+1e-9); } } }"),
 dict(id="set-parent-rot", property="C12", file="set.hpp", edits=[("    node *&nrlp = n->r->l ? n->r->l->p : nr;","    node *&nrlp = n->r->l && (n->l || n->r->r) ? n->r->l->p : nr;")],
  needs="a left rotation moving an inner grandchild where the node has no left child: only the inner left-right case on a leaf level", breaks="the moved node keeps a stale parent link: increment from it leaves the tree order",
  demo=T+"int main(){ perms(7,[](auto&p){ cest::set<int> s; for(int x:p){ s.insert(x); int n=0,prev=-1; for(auto i=s.begin(); i!=s.end()&&n<20; ++i){ REQ(*i>prev); prev=*i; n++; } REQ(n==s.size()); } }); }"),
 dict(id="map-parent-rot", property="C12", file="map.hpp", edits=[("    nary::swap(n,n->l,n->l->r, n->l->p,n->p,nlrp);","    node *top = n->p;\n    nary::swap(n,n->l,n->l->r, n->l->p,n->p,nlrp);\n    if (nl->r->l && nl->r->l->r) nl->r->l->p = top ? nl : nl->r;")],
  needs="a right rotation below the root whose moved subtree has a right child (a dozen descending insertions)", breaks="the moved subtree's parent link points to its grandparent: increment skips an element",
  demo=T+"int main(){ for(int s=0;s<60;s++){ cest::map<int,int> m; unsigned r=s+1; for(int i=0;i<60;i++){ r=r*1103515245u+12345u; int k=s==0?1000-i:(int)(r>>16)%500; m.insert({k,i}); int n=0,prev=-1; for(auto j=m.begin(); j!=m.end()&&n<100; ++j){ REQ(j->first>prev); prev=j->first; n++; } REQ(n==(int)m.size()); } } }"),
]
