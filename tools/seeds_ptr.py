SEEDS = [
 dict(id="up-selfmove", property="C14", file="memory.hpp", edits=[("    using std::swap;\n    swap(other.ptr_, ptr_);\n","    if (ptr_)\n      delete ptr_;\n    ptr_ = other.release();\n")],
  needs="a unique_ptr move-assigned to itself while it owns an object", breaks="the object is deleted although its owner is still alive, and the owner keeps (and later deletes) a dangling pointer",
  demo="#include <cest/memory.hpp>\nstatic int live=0; struct X{ X(){live++;} ~X(){live--;} };\nint main(){ { cest::unique_ptr<X> u(new X); cest::unique_ptr<X>& r=u; u=std::move(r); REQ(u.get()?live==1:live==0); REQ(live==1||!u); } REQ(live==0); }"),
 dict(id="up-reset-order", property="C14", file="memory.hpp", edits=[("    auto ptr = ptr_;\n\n    ptr_ = n_ptr;\n\n    if (ptr)\n      delete ptr;\n","    if (ptr_)\n      delete ptr_;\n\n    ptr_ = n_ptr;\n")],
  needs="an owned object whose destructor looks at its owner (here: resets it) while it is being deleted by reset", breaks="the object is deleted while the owner still points to it, so a re-entrant reset deletes it twice",
  demo="#include <cest/memory.hpp>\n#include <new>\nstruct N; static cest::unique_ptr<N>* owner; static int gone=0; struct N { ~N(){ if(++gone>1){ printf(\"deleted twice\\n\"); exit(1);} owner->reset(); } };\nint main(){ cest::unique_ptr<N> u(new N); owner=&u; u.reset(); REQ(gone==1); REQ(!u); }"),
 dict(id="up-le-null", property="C14", file="memory.hpp", edits=[("  return a.get() <= b.get();","  return a && a.get() <= b.get();")],
  needs="<= with an empty pointer on the left", breaks="comparison no longer agrees with the owned pointers (null <= null is false)",
  demo="#include <cest/memory.hpp>\nint main(){ cest::unique_ptr<int> a,b,c(new int(1)); REQ(a<=b); REQ(a<=c); REQ(c<=c); REQ(!(c<=a)); }"),
 dict(id="sp-null-skip", property="C15", file="shared_ptr.hpp", edits=[("      pctrl_->destroy();\n","      if (ptr_) pctrl_->destroy();\n")],
  needs="the last owner being an aliasing pointer that refers to null (or a deleter guarding a null pointer)", breaks="the bookkeeping is released but the deleter never runs: the object leaks",
  demo="#include <cest/memory.hpp>\nstatic int gone=0; struct X{ ~X(){gone++;} };\nint main(){ { cest::shared_ptr<X> a(new X); { cest::shared_ptr<X> b(a,(X*)nullptr); a=cest::shared_ptr<X>(); REQ(gone==0); REQ(b.use_count()==1); } REQ(gone==1); } int called=0; { cest::shared_ptr<X> c((X*)nullptr,[&](X*){called++;}); } REQ(called==1); }"),
 dict(id="sp-count-short", property="C15", file="shared_ptr.hpp", edits=[("    long count_;","    short count_;")],
  needs="more than 32767 owners of one object", breaks="the owner count wraps around: use_count is wrong and the object can be deleted early or never",
  demo="#include <cest/memory.hpp>\n#include <vector>\nint main(){ static int gone=0; struct X{ ~X(){gone++;} }; { std::vector<cest::shared_ptr<X>> v; v.reserve(40000); v.emplace_back(new X); while(v.size()<40000) v.push_back(v.back()); REQ(v[0].use_count()==40000); REQ(gone==0); } REQ(gone==1); }"),
 dict(id="sp-count-null", property="C15", file="shared_ptr.hpp", edits=[("return pctrl_ ? pctrl_->count_ : 0;","return ptr_ ? pctrl_->count_ : 0;")],
  needs="a shared_ptr that shares ownership while referring to null, or an alias of an empty pointer", breaks="use_count is 0 although the object has owners (or dereferences a missing control block)",
  demo="#include <cest/memory.hpp>\nint main(){ cest::shared_ptr<int> a(new int(1)); cest::shared_ptr<int> b(a,(int*)nullptr); REQ(b.use_count()==2); int x; cest::shared_ptr<int> e; cest::shared_ptr<int> f(e,&x); REQ(f.use_count()==0); }"),
 dict(id="fn-steal", property="C16", file="functional.hpp", edits=[("  constexpr impl_f(F&& f) : f_(f) {}\n\n  constexpr virtual R","  constexpr impl_f(F&& f) : f_(std::move(f)) {}\n\n  constexpr virtual R")],
  needs="a function built from a named callable with movable state that is used again afterwards", breaks="the stored callable is not a private copy: the caller's callable is emptied",
  demo="#include <cest/functional.hpp>\n#include <vector>\nstruct C{ std::vector<int> v; int operator()(int i){ return i<(int)v.size()?v[i]:-1; } };\nint main(){ C c{{7,8,9}}; cest::function<int(int)> f(c); REQ(f(1)==8); REQ(c(1)==8); cest::function<int(int)> g(c); REQ(g(2)==9); }"),
 dict(id="fn-void-ref", property="C16", file="functional.hpp", edits=[("    f_(std::forward<Args>(args)...);\n  }\n\n  F f_;","    auto f = f_;\n    f(std::forward<Args>(args)...);\n  }\n\n  F f_;")],
  needs="a void callable that keeps state between calls", breaks="each call runs a throw-away copy of the stored callable, so its state is lost (and extra copies are made)",
  demo="#include <cest/functional.hpp>\nint main(){ int last=0; cest::function<void(int)> f([&last,n=0](int d) mutable { n+=d; last=n; }); f(1); f(2); REQ(last==3); f(10); REQ(last==13); }"),
 dict(id="fn-arg-copy", property="C16", file="functional.hpp", edits=[("  constexpr R operator()(Args... args) {\n    return f_->operator()(std::forward<Args>(args)...);","  constexpr R operator()(std::decay_t<Args>... args) {\n    return f_->operator()(static_cast<Args&&>(args)...);")],
  needs="a value-returning function with a non-const reference parameter", breaks="the target gets a reference to a temporary copy instead of the given object: its writes are lost",
  demo="#include <cest/functional.hpp>\nint main(){ cest::function<int(int&,const int&)> f([](int& x,const int& y){ x+=5; return &x==&y; }); int a=1; REQ(f(a,a)==1); REQ(a==6); }"),
]
