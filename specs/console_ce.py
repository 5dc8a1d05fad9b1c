"""C24: in a constant expression the output operations write nothing, leave the stream as it was and report no characters
(the only results that may differ from run time; everything else has to meet its run-time contract in both evaluations)."""
from strrep import *
from console_ import setup, console, check, own, mk_num, mk_c, mk_s, arg, KS
HARNESS = "console"
P = "C24"
for nm, mk, why in (("o_int", lambda T: [T.int("v", 32)], "inserting an int"), ("o_uint", lambda T: [T.int("v", 32)], "inserting an unsigned int"), ("o_char", lambda T: [T.int("v", 8)], "inserting a character"),
                    ("o_cstr", lambda T: mk_c(T)[0], "inserting a C string"), ("o_str", lambda T: mk_s(T)[0], "inserting a string"), ("o_endl", lambda T: [], "inserting endl"), ("o_endl_call", lambda T: [], "calling endl")):
    for k in KS:
        @task(P, f"constant: {why}: {k}")
        def t(T, nm=nm, mk=mk, why=why, k=k):
            setup(T); o = console(T, k); a = mk(T)
            def post(st, r):
                check(T, st, [], f"{why} into {k} in a constant expression"); T.must(st, PEq(r, o), f"{why}: returns the stream"); T.frame(st, own(T), unchanged=[o.obj] + [x.obj for x in a if isinstance(x, Ptr) and x.obj in T.st.mem])
            T.post(T.call(nm, o, *a), post)
for nm, kinds in (("p_plain", ""), ("p_int", "i"), ("p_three", "isd")):
    @task(P, "constant: printf: " + (kinds or "no arguments"))
    def t(T, nm=nm, kinds=kinds):
        setup(T); f = cstr(T, "format"); a = [arg(T, k) for k in kinds]
        def post(st, r): check(T, st, [], "printf in a constant expression"); T.must(st, Eq(r, 0), "printf in a constant expression: no characters"); T.frame(st, own(T))
        T.post(T.call(nm, f.p, *a), post)
for nm, kinds in (("fp_plain", ""), ("fp_int", "i"), ("fp_three", "isd")):
    for k in KS:
        @task(P, f"constant: fprintf: {kinds or 'no arguments'}: {k}")
        def t(T, nm=nm, kinds=kinds, k=k):
            setup(T); o = console(T, k); f = cstr(T, "format"); a = [arg(T, x) for x in kinds]
            def post(st, r): check(T, st, [], "fprintf in a constant expression"); T.must(st, Eq(r, 0), "fprintf in a constant expression: no characters"); T.frame(st, own(T), unchanged=[o.obj])
            T.post(T.call(nm, o, f.p, *a), post)
