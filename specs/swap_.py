"""Contracts of nary::swap / nary::swapr for 0 to 8 arguments of an opaque type."""
from spec import *
HARNESS = "swap"
for k in range(1, 9):
    for nm, d in (("swap", 1), ("swapr", -1)):
        @task("C22", f"{nm}{k}")
        def t(T, nm=nm, k=k, d=d):
            lib.install_elem(T.e, "E", 1); T.done_externs()
            ps = [T.elem(f"x{i}") for i in range(k)]
            def post(st, r):
                for i, (p, v) in enumerate(ps):
                    T.must(st, T.elem_alive(st, p), f"{nm}: argument {i} is still alive")
                    T.must(st, Eq(T.elem_val(st, p), ps[(i + d) % k][1]), f"{nm}: argument {i} has the former value of its {'successor' if d > 0 else 'predecessor'} (cyclically)")
                T.frame(st, [])
            T.post(T.call(f"{nm}{k}", *[p for p, v in ps]), post)
