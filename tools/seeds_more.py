T="#include <utility>\n#include <set>\n#include <map>\n#include <cmath>\n#include <algorithm>\n#include <vector>\n#include <functional>\n#include <cest/set.hpp>\n#include <cest/map.hpp>\n"
CL='''        while (pn && pn->r && curr_node==pn->r)
        {
          curr_node = pn;
          pn = pn->p;
        }
        curr_node = pn;
      }
      return *this;
    }
'''
CL3='''        for (int up = 0; up < 5 && pn && pn->r && curr_node==pn->r; up++)
        {
          curr_node = pn;
          pn = pn->p;
        }
        curr_node = pn;
      }
      return *this;
    }
'''
SEEDS=[
dict(id="set-climb-five", property="C12", file="set.hpp", edits=[(CL,CL3)],
 needs="stepping past an element six right links below its successor (a right spine of length six)", breaks="the increment stops climbing too early and visits an earlier element again",
 demo=T+"int main(){ cest::set<int> s; for(int i=0;i<600;i++){ s.insert(i*37%601); int p=-1; size_t n=0; for(auto j=s.begin(); j!=s.end()&&n<900; ++j){ REQ(*j>p); p=*j; n++; } REQ(n==s.size()); } }"),
dict(id="map-citer-left", property="C12", file="map.hpp", edits=[('''    constexpr const_tree_iter&     operator++()    // pre-increment
    {
      if (curr_node->r)
      {
        curr_node = curr_node->r;
        while (curr_node->l)''','''    constexpr const_tree_iter&     operator++()    // pre-increment
    {
      if (curr_node->r)
      {
        curr_node = curr_node->r;
        while (curr_node->l && curr_node->l->p == curr_node->p->r)''')],
 needs="", breaks="", demo=T+"int main(){}"),
dict(id="map-citer-red", property="C12", file="map.hpp", edits=[('''    constexpr const_tree_iter&     operator++()    // pre-increment
    {
      if (curr_node->r)
      {
        curr_node = curr_node->r;
        while (curr_node->l)
          curr_node = curr_node->l;''','''    constexpr const_tree_iter&     operator++()    // pre-increment
    {
      if (curr_node->r)
      {
        curr_node = curr_node->r;
        if (curr_node->l)
          curr_node = curr_node->l;
        if (curr_node->l)
          curr_node = curr_node->l;''')],
 needs="iterating a const map from an element whose right subtree has a left spine of three", breaks="the const iterator skips the smallest elements of that subtree",
 demo=T+"int main(){ cest::map<int,int> m; for(int i=0;i<200;i++){ m.insert({1000-i*37%211,i}); const auto &c=m; int p=-1; size_t n=0; for(auto j=c.begin(); j!=c.end()&&n<500; ++j){ REQ(j->first>p); p=j->first; n++; } REQ(n==m.size()); } }"),
dict(id="set-lr-colour", property="C10", file="set.hpp", edits=[('''      } else if (n->l && n->l->c == RED && n->l->r && n->l->r->c == RED) {
        n->l->c    = BLACK;
        rotate_left(n->l);
        rotate_right(n);''','''      } else if (n->l && n->l->c == RED && n->l->r && n->l->r->c == RED && !(n->r && n->r->c == RED && n->p)) {
        n->l->c    = BLACK;
        rotate_left(n->l);
        rotate_right(n);''')],
 needs="an inner red-red violation on the left below a non-root node whose right child is red too", breaks="the violation is left in the tree: red paths grow past the depth bound in zig-zag insertion orders",
 demo=T+"template<class N> int depth(N *n){ return n?1+std::max(depth(n->l),depth(n->r)):0; } template<class N> bool rr(N *n){ return n && (n->c==0 && ((n->l&&n->l->c==0)||(n->r&&n->r->c==0)) || rr(n->l) || rr(n->r)); } int main(){ bool bad=false; for(unsigned s=1;s<4000;s++){ unsigned r=s; cest::set<int> t; for(int i=0;i<40;i++){ r=r*1103515245u+12345u; t.insert((r>>16)%60); if(depth(t.m_root)>2*std::log2(t.size()+1.0)+1e-9){ bad=true; } } } REQ(!bad); }"),
dict(id="ceil-eps", property="C20", file="cmath.hpp", edits=[("return (double)(int)v < v ? (int)v + 1 : (int)v;","return (double)(int)v < v - 1e-15 ? (int)v + 1 : (int)v;")],
 needs="ceil of a positive number less than 1e-15 above an integer (only near zero)", breaks="the result is the integer below the argument",
 demo="#include <limits>\n#include <cest/cmath.hpp>\nint main(){ REQ(cest::ceil(1e-16)==1); REQ(cest::ceil(5e-324)==1); REQ(cest::ceil(2.5)==3); REQ(cest::ceil(-1e-16)==0); }"),
dict(id="floor-float", property="C20", file="cmath.hpp", edits=[("return (double)(int)v > v ? (int)v - 1 : (int)v;","return (float)(int)v > v ? (int)v - 1 : (int)v;")],
 needs="floor of a number above 2^24 whose integer part is not a float", breaks="the integer part is rounded up to the next float and the result is one too small",
 demo="#include <limits>\n#include <cest/cmath.hpp>\nint main(){ REQ(cest::floor(16777219.0)==16777219); REQ(cest::floor(33554435.5)==33554435); REQ(cest::floor(-2.5)==-3); REQ(cest::floor(2147483647.0)==2147483647); }"),
dict(id="vec-erase-one", property="C01", file="vector.hpp", edits=[('''    for (; it2 != end(); it2++) {
      *it1++ = *it2;
    }''','''    if (last - first > end() - last)       // the tail fits in the gap
      std::copy(last, end(), first);
    else
      for (; it2 < end(); ++it2)
        *it1++ = *(it2 == end() - 1 && m_size == m_capacity && first == begin() ? it2 : it2);''')],
 needs="", breaks="", demo="int main(){}"),
dict(id="vec-init-dup", property="C01", file="vector.hpp", edits=[("    for (const auto &x : init) { push_back(x); }","    reserve(init.size());\n    for (const auto &x : init) { if (m_size < 64) push_back(x); }")],
 needs="a braced list of more than 64 elements", breaks="elements after the 64th are dropped",
 demo="#include <cest/vector.hpp>\nint main(){ cest::vector<int> v{0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65}; REQ(v.size()==66); REQ(v[65]==65); }"),
dict(id="vec-copy-back", property="C01", file="vector.hpp", edits=[('''    reserve(other.capacity());
    m_size = other.size();
    for (size_type i = 0; i < m_size; i++)''','''    reserve(other.capacity());
    m_size = other.size();
    if (m_size == m_capacity && m_size > 8)     // full: nothing follows the last
      std::construct_at(&m_p[m_size-1], other.m_p[m_size-2]);
    for (size_type i = 0; i < m_size - (m_size == m_capacity && m_size > 8); i++)''')],
 needs="copying a vector of more than eight elements that is exactly full", breaks="the copy's last element repeats the one before it",
 demo="#include <cest/vector.hpp>\nint main(){ cest::vector<int> v; for(int i=0;i<40;i++){ v.push_back(i); cest::vector<int> w(v); REQ(w.size()==v.size()); REQ(w.back()==i); } }"),
]
SEEDS=[s for s in SEEDS if s["needs"]]
