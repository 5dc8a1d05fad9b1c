NEW='''#include <new>
#include <utility>
#include <string>
#include <cest/vector.hpp>
#include <cest/string.hpp>
#include <cest/list.hpp>
#include <cest/deque.hpp>
#include <cest/set.hpp>
#include <cest/map.hpp>
static long budget=-1;
void *operator new(std::size_t n){ if(budget==0) throw std::bad_alloc(); if(budget>0) --budget; return malloc(n?n:1); }
void operator delete(void*p) noexcept { free(p); }
void operator delete(void*p,std::size_t) noexcept { free(p); }
template<class F> bool fails(long b,F f){ budget=b; bool t=false; try { f(); } catch(const std::bad_alloc&){ t=true; } budget=-1; return t; }
'''
M='#include <initializer_list>\n#include <cmath>\n#include <limits>\n#include <cest/cmath.hpp>\nstatic bool near(double a,double b,double e){ return std::fabs(a-b)<=e; }\n'
SEEDS=[
dict(id="vec-reserve-cap", property="C25", file="vector.hpp", edits=[("""      value_type *p = m_alloc.allocate(new_cap);
      for (size_type i = 0; i < m_size; i++)
        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
      if (0 != m_capacity) {
        std::destroy_n(m_p,m_size);
        m_alloc.deallocate(m_p,m_capacity);
      }
      m_p = p;
      m_capacity = new_cap;""","""      const size_type old_cap = m_capacity;
      m_capacity = new_cap;
      value_type *p = m_alloc.allocate(m_capacity);
      for (size_type i = 0; i < m_size; i++)
        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
      if (0 != old_cap) {
        std::destroy_n(m_p,m_size);
        m_alloc.deallocate(m_p,old_cap);
      }
      m_p = p;""")],
 needs="a reserve whose allocation fails", breaks="the capacity is raised before the storage is obtained: after a failed reserve the vector believes in capacity it does not have",
 demo=NEW+"int main(){ cest::vector<int> v; v.push_back(1); auto c=v.capacity(); REQ(fails(0,[&]{ v.reserve(100); })); REQ(v.capacity()==c && v.size()==1 && v[0]==1); }"),
dict(id="str-append-size", property="C25", file="string.hpp", edits=[("""    const size_type len = count + this->size();

    if (len <= this->capacity())
    {
      if (count)
        traits_type::copy(this->data() + this->size(), s, count);
    }""","""    const size_type size = this->size();
    const size_type len  = m_size = count + size;

    if (len <= this->capacity())
    {
      if (count)
        traits_type::copy(this->data() + size, s, count);
    }"""),("""      traits_type::copy(p, m_p, m_size);
      traits_type::copy(p + m_size, s, count);""","""      traits_type::copy(p, m_p, size);
      traits_type::copy(p + size, s, count);"""),("m_size = len;\n      m_capacity = len;","m_capacity = len;")],
 needs="an append that has to reallocate and whose allocation fails", breaks="the length is updated before the storage is obtained: after a failed append the string is longer than its contents",
 demo=NEW+"int main(){ cest::string s(\"abc\"); const char *t=\"0123456789012345678901234567890123456789\"; REQ(fails(0,[&]{ s.append(t,40); })); REQ(s.size()==3 && s==cest::string(\"abc\")); }"),
dict(id="list-emplace-count", property="C25", file="list.hpp", edits=[("""    node_base*   p = const_cast<node_base*>(pos.m_node);
    node* new_node = m_node_alloc.allocate(1);

    std::construct_at(new_node, value_type(std::forward<Args>(args)...));

    // List_node_base::_M_hook
    new_node->next = p;
    new_node->prev = p->prev;
    p->prev->next = new_node;
    p->prev       = new_node;

    m_size++;
    return {new_node};""","""    node_base*   p = const_cast<node_base*>(pos.m_node);
    m_size++;
    node* new_node = m_node_alloc.allocate(1);

    std::construct_at(new_node, value_type(std::forward<Args>(args)...));

    // List_node_base::_M_hook
    new_node->next = p;
    new_node->prev = p->prev;
    p->prev->next = new_node;
    p->prev       = new_node;

    return {new_node};""")],
 needs="an emplace (or insert of a temporary) whose node allocation fails", breaks="the element is counted before its node is obtained: after a failed emplace size() is one too large",
 demo=NEW+"int main(){ cest::list<int> l; l.push_back(1); REQ(fails(0,[&]{ l.emplace(l.begin(), 5); })); REQ(l.size()==1 && l.front()==1); }"),
dict(id="set-count-early", property="C25", file="set.hpp", edits=[("""        n = ret_node = m_node_alloc.allocate(1);
        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
        added = true;
        m_size++;
        return;""","""        added = ++m_size;
        n = ret_node = m_node_alloc.allocate(1);
        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
        return;""")],
 needs="an insert of a new key whose node allocation fails", breaks="the element is counted before its node is obtained: after a failed insert size() is one too large",
 demo=NEW+"int main(){ cest::set<int> s; s.insert(4); s.insert(2); REQ(fails(0,[&]{ s.insert(3); })); REQ(s.size()==2); s.insert(3); REQ(s.size()==3); }"),
dict(id="deq-front-count", property="C25", file="deque.hpp", edits=[("""      if (m_front_chunk == 0)
      {
        add_chunk();
        std::rotate""","""      m_front = CHUNK_SIZE - 1;

      if (m_front_chunk == 0)
      {
        add_chunk();
        std::rotate"""),("""        --m_front_chunk;
      }

      m_front = CHUNK_SIZE - 1;
    }""","""        --m_front_chunk;
      }
    }""")],
 needs="a push_front that needs a new first chunk and whose allocation fails", breaks="the front position moves before the chunk is obtained: after a failed push_front the elements are gone from the front's view",
 demo=NEW+"int main(){ cest::deque<int> d; d.push_back(7); int n=0; bool f=false; for(int i=0;i<2000&&!f;i++){ f=fails(0,[&]{ d.push_front(i); }); if(!f) n++; } REQ(f); REQ((int)d.size()==n+1); REQ(d.back()==7); for(int k=0;k<n;k++) REQ(d[k]==n-1-k); int c=0; for(auto &x:d){ (void)x; c++; } REQ(c==n+1); }"),
dict(id="exp-half", property="C26", file="cmath.hpp", edits=[("return (x-0.5) > (int)x ? (int)(x+0.5) : (int)x;","return x > (int)x ? (int)(x+0.5) : (int)x;")],
 needs="an argument exactly halfway between two non-negative integers", breaks="the integer part is rounded up at .5 while the fraction is still counted from below: exp(0.5) is e times too large",
 demo=M+"int main(){ for(double x: {0.5,1.5,7.5,20.5}) REQ(near(cest::exp(x)/std::exp(x),1,1e-4)); for(double x:{0.25,0.75,-0.5,-3.5,2.,0.}) REQ(near(cest::exp(x)/std::exp(x),1,1e-4)); }"),
dict(id="log-ten", property="C26", file="cmath.hpp", edits=[("return x >= 10.0 ? mantissa(x *  0.1) :","return x >  10.0 ? mantissa(x *  0.1) :")],
 needs="an argument whose decimal scaling meets ten exactly", breaks="mantissa and exponent disagree at ten: log(10) counts the decade twice",
 demo=M+"int main(){ for(double x:{10.,1.,5.,9.99,10.01,100.,1000.}) REQ(near(cest::log(x),std::log(x),1.2e-3)); }"),
dict(id="atan2-negaxis", property="C26", file="cmath.hpp", edits=[("y >= 0 && x <  0 ? atan(y/x) + CEST_M_PI :","y >  0 && x <  0 ? atan(y/x) + CEST_M_PI :")],
 needs="the negative real axis (y exactly zero, x negative)", breaks="the angle of a negative real number is 0 instead of pi",
 demo=M+"int main(){ REQ(near(cest::atan2(0,-2),3.14159265,1e-4)); REQ(near(cest::atan2(1,-2),std::atan2(1,-2),1e-4)); REQ(near(cest::atan2(-1,-2),std::atan2(-1,-2),1e-4)); }"),
dict(id="atan-compl", property="C26", file="cmath.hpp", edits=[("return (x < 1) ? atan_identity(x)","return (x < 1.25) ? atan_identity(x)")],
 needs="an argument between 1.1 and 1.25", breaks="arguments a little above one no longer go through the complement, so the polynomial is used beyond its range",
 demo=M+"int main(){ for(int i=-3000;i<=3000;i++) REQ(near(cest::atan(i*0.001),std::atan(i*0.001),1e-4)); }"),
dict(id="cosh-shortcut", property="C26", file="cmath.hpp", edits=[("return sqrt(1.0 + square(sinh(x)));","return x > 3.5 ? sinh(x) : sqrt(1.0 + square(sinh(x)));")],
 needs="an argument a little above 3.5", breaks="large arguments take the hyperbolic sine for the cosine before the two are close enough (relative error 0.0018)",
 demo=M+"int main(){ for(int i=-1000;i<=1000;i++) REQ(near(cest::cosh(i*0.01)/std::cosh(i*0.01),1,6e-4)); }"),
dict(id="sinh-neg-small", property="C26", file="cmath.hpp", edits=[("return x < 0 ? -sinh_helper(-x) : sinh_helper(x);","return x < -tol ? -sinh_helper(-x) : sinh_helper(x > tol ? x : square(x) < tol ? x : -x);")],
 needs="nothing", breaks="", demo=M+"int main(){ for(int i=-1000;i<=1000;i++) REQ(near(cest::sinh(i*0.01),std::sinh(i*0.01),2e-5*std::fabs(std::sinh(i*0.01)))); }"),
dict(id="sin-base", property="C26", file="cmath.hpp", edits=[("return x < tol ? x : 3*(sin_helper(x/3.0))","return x < 40*tol ? x : 3*(sin_helper(x/3.0))")],
 needs="arguments near the top of a reduction interval (e.g. 0.039) or their multiples by three", breaks="the recursion stops at 0.04, where x and sin x differ by more than the stated error",
 demo=M+"int main(){ for(int i=-6283;i<=6283;i++) REQ(near(cest::sin(i*0.001),std::sin(i*0.001),2e-5)); }"),
]
SEEDS=[s for s in SEEDS if s["id"]!="sinh-neg-small"]
