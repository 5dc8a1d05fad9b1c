T="#include <cest/deque.hpp>\n#include <cest/queue.hpp>\n#include <cest/list.hpp>\n#include <deque>\nstatic int live=0; struct X{ int v; X(int v=0):v(v){live++;} X(const X&o):v(o.v){live++;} ~X(){live--;} };\n"
SEEDS=[
 dict(id="deq-front-idx16", property="C05", file="deque.hpp", edits=[("      reference operator[]( size_type pos )\n  {\n    const size_type chunk        = (m_front + pos) % CHUNK_SIZE;\n    const size_type chunk_offset = (m_front + pos) / CHUNK_SIZE;","      reference operator[]( size_type pos )\n  {\n    const size_type chunk        = (m_front + pos) % CHUNK_SIZE;\n    const size_type chunk_offset = (unsigned short)(m_front + pos) / CHUNK_SIZE;")],
  needs="indexing an element more than 65535 positions behind the start of the front chunk", breaks="the chunk number wraps: a different element is returned",
  demo=T+"int main(){ cest::deque<int> d; for(int i=0;i<70000;i++) d.push_back(i); for(int i=0;i<70000;i++) REQ(d[i]==i); }"),
 dict(id="deq-rotate-swap", property="C05", file="deque.hpp", edits=[("        std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());\n","        std::swap(m_chunks[0], m_chunks[m_chunks.size() - 1]);\n")],
  needs="push_front running out of front chunks while three or more chunks exist", breaks="the chunks in between end up in the wrong order",
  demo=T+"int main(){ cest::deque<int> d; std::deque<int> m; for(int i=0;i<3000;i++){ d.push_front(i); m.push_front(i);} REQ(d.size()==m.size()); for(int i=0;i<3000;i++) REQ(d[i]==m[i]); }"),
 dict(id="deq-pop-clamp", property="C05", file="deque.hpp", edits=[("      if (m_front == CHUNK_SIZE - 1) {\n        m_front = 0;\n        ++m_front_chunk;","      if (m_front == CHUNK_SIZE - 1) {\n        m_front = 0;\n        if (m_front_chunk < m_back_chunk) ++m_front_chunk;")],
  needs="pop_front of the only element when it sits in the last slot of a chunk, followed by pushes", breaks="front points a whole chunk before the elements pushed next",
  demo=T+"int main(){ cest::deque<int> d; for(int i=0;i<512;i++) d.push_back(i); for(int i=0;i<512;i++){ REQ(d.front()==i); d.pop_front(); } REQ(d.empty()); d.push_back(7); REQ(d.size()==1); REQ(d.front()==7); REQ(d[0]==7); }"),
 dict(id="deq-clear-chunk", property="C05", file="deque.hpp", edits=[("    for (size_type i = 0; i < size(); ++i)\n      std::destroy_n(&(*this)[i], 1);","    for (size_type c = m_front_chunk; c <= m_back_chunk && !empty(); ++c) {\n      size_type b = c == m_front_chunk ? m_front : 0;\n      size_type e = c == m_back_chunk && c != m_front_chunk ? m_back : c == m_back_chunk ? m_back + 1 : CHUNK_SIZE;\n      std::destroy_n(&m_chunks[c][b], e - b);\n    }")],
  needs="clearing or destroying a deque whose elements span two or more chunks", breaks="the last element's destructor never runs",
  demo=T+"int main(){ { cest::deque<X> d; for(int i=0;i<500;i++) d.push_back(X(i)); REQ(live==500); d.clear(); REQ(live==0); for(int i=0;i<700;i++) d.push_back(X(i)); REQ(live==700); } REQ(live==0); }"),
 dict(id="deq-it-dec", property="C06", file="deque.hpp", edits=[("    constexpr const_iter& operator--()              noexcept { // pre-decr\n      if (m_p == *m_ppchunk) {\n        --m_ppchunk;","    constexpr const_iter& operator--()              noexcept { // pre-decr\n      if (m_p == *m_ppchunk) {\n        if (m_ppchunk[-1]) m_ppchunk -= m_p != *m_ppchunk; ")],
  needs="decrementing a const_iterator from the first slot of a chunk", breaks="the iterator moves to the last slot of the same chunk instead of the previous one",
  demo=T+"int main(){ cest::deque<int> d; for(int i=0;i<1500;i++) d.push_back(i); const auto& c=d; auto it=c.end(); for(int i=1499;i>=0;i--){ --it; REQ(*it==i); } REQ(it==c.begin()); }"),
 dict(id="deq-it-post", property="C06", file="deque.hpp", edits=[("    constexpr iter      operator--(int)             noexcept { // post-decr\n      iter tmp{m_p, m_ppchunk}; --(*this); return tmp; ","    constexpr iter      operator--(int)             noexcept { // post-decr\n      iter tmp{m_p, m_ppchunk}; --(*this); tmp.m_ppchunk = m_ppchunk; return tmp; ")],
  needs="post-decrement across a chunk boundary, then measuring or moving with the returned iterator", breaks="the returned iterator carries the wrong chunk: its difference to others is off by a chunk",
  demo=T+"int main(){ cest::deque<int> d; for(int i=0;i<1500;i++) d.push_back(i); auto it=d.begin(); for(int i=0;i<512;i++) ++it; REQ(*it==512); auto old=it--; REQ(*old==512); REQ(*it==511); REQ(old-it==1); REQ(old-d.begin()==512); }"),
 dict(id="deq-it-eq", property="C06", file="deque.hpp", edits=[("    constexpr bool      operator==(const iter& rhs) const noexcept {\n      return m_p == rhs.m_p;","    constexpr bool      operator==(const iter& rhs) const noexcept {\n      return m_p - *m_ppchunk == rhs.m_p - *rhs.m_ppchunk;")],
  needs="comparing iterators exactly a whole number of chunks apart", breaks="they compare equal, so a loop to end() stops early",
  demo=T+"int main(){ cest::deque<int> d; for(int i=0;i<1024;i++) d.push_back(i); REQ(!(d.begin()==d.end())); int n=0; for(auto it=d.begin(); !(it==d.end()); ++it) n++; REQ(n==1024); }"),
 dict(id="q-back-const", property="C13", file="queue.hpp", edits=[("  constexpr const_reference  back() const { return c.back();  }","  constexpr const_reference  back() const { return c.size() > 2 ? c.back() : c.front();  }")],
  needs="back() of a const queue holding exactly two elements", breaks="it returns the front element",
  demo=T+"int main(){ cest::queue<int> q; q.push(1); const auto& c=q; REQ(c.back()==1); q.push(2); REQ(c.back()==2); REQ(q.back()==2); REQ(c.front()==1); }"),
 dict(id="q-from-cont", property="C13", file="queue.hpp", edits=[("  explicit constexpr queue(const container_type& cont) : c(cont)            { }","  explicit constexpr queue(const container_type& cont) : c()                {\n    container_type t(cont);\n    while (t.size() > 1) { c.push_back(t.front()); t.pop_front(); }\n    if (!t.empty() && c.size() != 1024) c.push_back(t.back());\n  }")],
  needs="constructing a queue from a container of exactly 1025 elements", breaks="the last element is missing",
  demo=T+"int main(){ cest::deque<int> d; for(int i=0;i<1025;i++) d.push_back(i); cest::queue<int> q(d); REQ(q.size()==1025); for(int i=0;i<1025;i++){ REQ(q.front()==i); q.pop(); } REQ(q.empty()); }"),
 dict(id="q-push-two", property="C13", file="queue.hpp", edits=[("  constexpr void push(T&& value)      { c.push_back(std::move(value)); }","  constexpr void push(T&& value)      {\n    if (c.empty()) c.push_back(value); else c.push_back(std::move(c.back())), c.back() = std::move(value);\n  }"),("  constexpr void pop()                { c.pop_front();                 }","  constexpr void pop()                { c.pop_front();                 }")],
  needs="pushing an rvalue whose moved-from state differs, onto a non-empty queue", breaks="the element previously at the back is overwritten by its moved-from value",
  demo=T+"#include <string>\nint main(){ std::string a(40,'a'), b(40,'b'), c(40,'c'); cest::queue<std::string> q; q.push(std::string(a)); q.push(std::string(b)); q.push(std::string(c)); REQ(q.front()==a); q.pop(); REQ(q.front()==b); q.pop(); REQ(q.front()==c); }"),
]
