M=[("memory.hpp",o,n,["C14"]) for o,n in [
 ("    ptr_ = nullptr;\n    return ptr;","    return ptr;"),
 ("other.release()","other.get()"),
 ("    if (ptr_)\n      delete ptr_;",""),
 ("swap(other.ptr_, ptr_);","ptr_ = other.ptr_;"),
 ("swap(other.ptr_, ptr_);","reset(other.release());"),
 ("a.get() > b.get()","a.get() >= b.get()"),
 ("return bool(ptr_)","return (reinterpret_cast<unsigned long>(ptr_) & 0xffffffff) != 0"),
]]+[("shared_ptr.hpp",o,n,["C15"]) for o,n in [
 ("      delete pctrl_;\n",""),
 ("if (pctrl_ && !--pctrl_->count_)","if (pctrl_ && --pctrl_->count_ < 2)"),
 ("    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }","    : ptr_{ptr}, pctrl_{ptr ? r.pctrl_ : nullptr} { if (pctrl_) ++pctrl_->count_; }"),
 ("delete [] ptr","delete ptr"),
 ("return this->get()[i]","return this->get()[i & 0xff]"),
 ("constexpr operator bool() const noexcept { return ptr_; }","constexpr operator bool() const noexcept { return pctrl_; }"),
 ("shared_ptr_base tmp{r};","if (pctrl_ == r.pctrl_) return *this; shared_ptr_base tmp{r};"),
 ("ptr ? &ptr->del_ : nullptr","&static_cast<ctrl_derived_t*>(p.pctrl_)->del_"),
]]+[("functional.hpp",o,n,["C16"]) for o,n in [
 ("return f_(std::forward<Args>(args)...);","f_(std::forward<Args>(args)...); return f_(std::forward<Args>(args)...);"),
 ("constexpr virtual ~virt_impl_f() = default;","constexpr ~virt_impl_f() = default;"),
 ("    f_(std::forward<Args>(args)...);\n  }\n\n  F f_;","    F g(f_); g(std::forward<Args>(args)...);\n  }\n\n  F f_;"),
]]
