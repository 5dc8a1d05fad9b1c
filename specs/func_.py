"""Contracts of cest::function over opaque callables: every call of the target is recorded with what it was given."""
from spec import *
HARNESS = "func"
P = "C16"
def setup(T):
    e = T.e
    for n in "EFGH": lib.install_elem(e, n, 1)
    E = lib.Elem("E"); T.target = None; T.FS = T.cval("FF_size"); T.FPO = T.cval("FF_p"); T.calls = lambda st: st.ghost.get("calls", ())
    def rec(st, *x): st.ghost["calls"] = T.calls(st) + (x,)
    def thisval(e, st, c, p, w):
        L, v = lib.Elem(c).need(e, st, p, w + "target: ")
        if T.target is not None: e.oblige(st, PEq(p, T.target), w + "the callable invoked is the stored one")
        return v
    T.ret = z3.Function("RESULT", z3.IntSort(), z3.IntSort())
    def result(st): r = T.ret(z3.IntVal(len(T.calls(st)))); return r
    def callF(e, st, fn, a, I):
        w = e.loc(I); v = thisval(e, st, "F", a[0], w); L, ev = E.need(e, st, a[2], w); E.put(e, st, E.loc(e, st, a[2], w, True), None, FInt("clobbered"))
        rec(st, "F", v, a[1], ev, a[3], a[4]); r = result(st); e.assume(st, InRange(0, r, U64)); return r
    def callG(e, st, fn, a, I):
        w = e.loc(I); v = thisval(e, st, "G", a[0], w); L, ev = E.need(e, st, a[1], w); rec(st, "G", v, a[1], ev, a[2]); E.put(e, st, E.loc(e, st, a[1], w, True), None, z3.Int("NEWVAL"))
    def callH(e, st, fn, a, I):
        w = e.loc(I); v = thisval(e, st, "H", a[1], w); L, ev = E.need(e, st, a[2], w); rec(st, "H", v, a[2], ev, a[3])
        E.construct(e, st, a[0], result(st), w)
    def callP(e, st, fn, a, I):
        rec(st, "P", a[0], a[1]); r = result(st); e.assume(st, InRange(0, r, U64)); return r
    for rx, f in ((r"F::operator\(\)\(.*\)", callF), (r"G::operator\(\)\(.*\)", callG), (r"H::operator\(\)\(.*\)", callH), (r"target(\(int, long\))?", callP)): e.externs.append((re.compile(rx), f))
    T.done_externs()
VT = {"F": r"vtable for cest::impl_f<F, .*", "G": r"vtable for cest::impl_f<G, .*", "H": r"vtable for cest::impl_f<H, .*", "P": r"vtable for cest::impl_f<long \(\*\)\(int, long\), .*"}
def vtable(T, k):
    c = T.e.m.gfind(VT[k])
    if len(c) != 1: raise Unsupported(f"vtable of the {k} target: {c}")
    return Ptr(T.e.global_ptr(T.st, c[0]).obj, 16)
def func(T, name, k, raw=False, empty=False):
    o = T.struct(name, T.FS); p = Ptr(o.id, 0)
    if raw: return p, None, None
    if empty: T.set_cell(o, T.FPO, "p", NULL); return p, NULL, None
    i = T.e.new_obj(T.st, name + ".target", T.cval(k + "_impl"), heap=True); off = T.cval(k + "_off")
    T.set_cell(i, 0, "p", vtable(T, k))
    if k == "P": v = T.e.fn_ptr(T.fn("target")); T.set_cell(i, off, "p", v)
    else: v = FInt(name + "_v"); i.comps["alive"] = i.comp("alive").pt((off,), True); i.comps["val"] = i.comp("val").pt((off,), v)
    T.set_cell(o, T.FPO, "p", Ptr(i.id, 0)); return p, Ptr(i.id, 0), v
def holds(T, st, p, k, v, why):
    """p holds a target of kind k equal to v; -> its storage id"""
    q = T.cell(st, p, T.FPO, "p"); T.must(st, isc(q.obj) and q.obj in st.mem and q.off == 0, why + ": a target is stored")
    o = st.mem[q.obj]; T.must(st, o.heap and o.live, why + ": the target's storage is live"); T.must(st, PEq(T.cell(st, q, 0, "p"), vtable(T, k)), why + ": the target has its own type")
    off = T.cval(k + "_off")
    if k == "P": T.must(st, PEq(T.cell(st, q, off, "p"), v), why + ": the stored target is the given function")
    else: T.must(st, T.e.fm_read(st, o.comp("alive"), (off,), None), why + ": the stored target is alive"); T.must(st, Eq(T.e.fm_read(st, o.comp("val"), (off,), None), v), why + ": the stored target equals the given one")
    return q.obj
def gone(T, st, q, why):
    if q is None or q.obj == 0: return
    T.must(st, not st.mem[q.obj].live, why + ": the target's storage is released")
def ncalls(T, st, n=0): T.must(st, len(T.calls(st)) == n, f"the target is called {['never', 'exactly once', 'twice'][n]}")
for k in "FGH":
    n = k.lower()
    for r in ("", "_r"):
        @task(P, f"{n}_ctor{r}")
        def t(T, k=k, n=n, r=r):
            setup(T); f, _, _ = func(T, "f", k, raw=True); x, v = T.elem("x")
            def post(st, rr):
                id = holds(T, st, f, k, v, "construction"); T.must(st, T.elem_alive(st, x), "the argument is still alive")
                if not r: T.must(st, Eq(T.elem_val(st, x), v), "a copied argument is unchanged")
                ncalls(T, st); T.frame(st, [id])
            T.post(T.call(f"{n}_ctor{r}", f, x), post)
    @task(P, f"{n}_dtor")
    def t(T, k=k, n=n):
        setup(T); f, q, v = func(T, "f", k)
        T.post(T.call(f"{n}_dtor", f), lambda st, r: (gone(T, st, q, "destruction"), ncalls(T, st), T.frame(st, [])))
    @task(P, f"{n}_move")
    def t(T, k=k, n=n):
        setup(T); f, _, _ = func(T, "f", k, raw=True); o, q, v = func(T, "o", k)
        T.post(T.call(f"{n}_move", f, o), lambda st, r: (T.frame(st, [holds(T, st, f, k, v, "move")]), T.must(st, PEq(T.cell(st, o, T.FPO, "p"), NULL), "the source gives the target up"), ncalls(T, st)))
    for c in ("", "to moved-from", "self"):
        @task(P, f"{n}_assign[{c}]")
        def t(T, k=k, n=n, c=c):
            setup(T); f, q, v = func(T, "f", k, empty=c == "to moved-from"); o, x, w = (f, q, v) if c == "self" else func(T, "o", k)
            def post(st, r):
                T.must(st, PEq(r, f), "returns itself"); id = holds(T, st, f, k, w, "assignment"); lv = [id]
                if c != "self":
                    b = T.cell(st, o, T.FPO, "p")
                    if q.obj and st.mem[q.obj].live: T.must(st, PEq(b, q), "the former target is still owned, by the source"); holds(T, st, o, k, v, "former target"); lv.append(q.obj)
                    else: T.must(st, PEq(b, NULL), "the source gives the target up"); gone(T, st, q, "former target")
                ncalls(T, st); T.frame(st, lv)
            T.post(T.call(f"{n}_assign", f, o), post)
for r in ("", "_r"):
    @task(P, "f_call" + r)
    def t(T, r=r):
        setup(T); f, q, v = func(T, "f", "F"); T.target = Ptr(q.obj, T.cval("F_off")); i = T.int("i", 32); x, xv = T.elem("x"); y, yv = T.elem("y"); s = Ptr(T.struct("text", 4).id, T.int("at"))
        def post(st, rr):
            ncalls(T, st, 1); c = T.calls(st)[0]
            T.must(st, Eq(c[1], v), "the stored target is the one called"); T.must(st, Eq(c[2], i), "argument 1 arrives"); T.must(st, Eq(c[3], xv), "argument 2 (by value) arrives")
            T.must(st, PEq(c[4], y), "argument 3 (by reference) is the caller's object"); T.must(st, PEq(c[5], s), "argument 4 arrives"); T.must(st, Eq(rr, T.ret(z3.IntVal(1))), "the target's result is returned")
            T.must(st, T.elem_alive(st, x), "the caller's object stays alive"); T.must(st, Eq(T.elem_val(st, y), yv), "a const argument is unchanged")
            if not r: T.must(st, Eq(T.elem_val(st, x), xv), "an argument passed by value is unchanged")
            T.frame(st, [holds(T, st, f, "F", v, "call")])
        T.post(T.call("f_call" + r, f, i, x, y, s), post)
@task(P, "g_call")
def t(T):
    setup(T); f, q, v = func(T, "f", "G"); T.target = Ptr(q.obj, T.cval("G_off")); x, xv = T.elem("x"); n = T.int("n")
    def post(st, r):
        ncalls(T, st, 1); c = T.calls(st)[0]
        T.must(st, Eq(c[1], v), "the stored target is the one called"); T.must(st, PEq(c[2], x), "argument 1 (by reference) is the caller's object"); T.must(st, Eq(c[3], xv), "with its value"); T.must(st, Eq(c[4], n), "argument 2 arrives")
        T.must(st, Eq(T.elem_val(st, x), z3.Int("NEWVAL")), "what the target writes reaches the caller's object"); T.frame(st, [holds(T, st, f, "G", v, "call")])
    T.post(T.call("g_call", f, x, n), post)
@task(P, "h_call")
def t(T):
    setup(T); f, q, v = func(T, "f", "H"); T.target = Ptr(q.obj, T.cval("H_off")); x, xv = T.elem("x"); out, _ = T.elem("out", alive=False); i = T.int("i", 32)
    def post(st, r):
        ncalls(T, st, 1); c = T.calls(st)[0]
        T.must(st, Eq(c[1], v), "the stored target is the one called"); T.must(st, PEq(c[2], x), "argument 1 (rvalue) is the caller's object"); T.must(st, Eq(c[3], xv), "with its value"); T.must(st, Eq(c[4], i), "argument 2 arrives")
        T.must(st, T.elem_alive(st, out), "a result is returned"); T.must(st, Eq(T.elem_val(st, out), T.ret(z3.IntVal(1))), "the target's result is returned"); T.frame(st, [holds(T, st, f, "H", v, "call")])
    T.post(T.call("h_call", out, f, x, i), post)
for nm in ("p_ctor", "p_ctor_fn"):
    @task(P, nm)
    def t(T, nm=nm):
        setup(T); f, _, _ = func(T, "f", "P", raw=True); v = T.e.fn_ptr(T.fn("target"))
        T.post(T.call(nm, f, *([v] if nm == "p_ctor" else [])), lambda st, r: (T.frame(st, [holds(T, st, f, "P", v, "construction")]), ncalls(T, st)))
@task(P, "p_call")
def t(T):
    setup(T); f, q, v = func(T, "f", "P"); i = T.int("i", 32); j = T.int("j")
    def post(st, r):
        ncalls(T, st, 1); c = T.calls(st)[0]; T.must(st, Eq(c[1], i), "argument 1 arrives"); T.must(st, Eq(c[2], j), "argument 2 arrives"); T.must(st, Eq(r, T.ret(z3.IntVal(1))), "the target's result is returned"); T.frame(st, [holds(T, st, f, "P", v, "call")])
    T.post(T.call("p_call", f, i, j), post)
@task(P, "p_dtor")
def t(T):
    setup(T); f, q, v = func(T, "f", "P")
    T.post(T.call("p_dtor", f), lambda st, r: (gone(T, st, q, "destruction"), T.frame(st, [])))
@task(P, "f_two")
def t(T):
    setup(T); x, xv = T.elem("x"); y, yv = T.elem("y"); i = T.int("i", 32); a, av = T.elem("a"); b, bv = T.elem("b"); s = Ptr(T.struct("text", 4).id, 0)
    def post(st, r):
        ncalls(T, st, 2); c = T.calls(st); T.must(st, Eq(c[0][1], xv), "each function calls its own target"); T.must(st, Eq(c[1][1], yv), "each function calls its own target")
        for q in c: T.must(st, Eq(q[3], av), "argument 2 arrives"); T.must(st, Eq(q[2], i), "argument 1 arrives")
        T.must(st, Eq(r, T.ret(z3.IntVal(2))), "the second result is returned"); T.frame(st, [])
    T.post(T.call("f_two", x, y, i, a, b, s), post)
# ---- failing allocation (C25)
NOST = " when storage cannot be obtained"
for k in "FGH":
    for r in ("", "_r"):
        @task("C25", f"{k.lower()}_ctor{r}" + NOST)
        def t(T, k=k, r=r):
            setup(T); f, _, _ = func(T, "f", k, raw=True); x, v = T.elem("x")
            T.fails(f"{k.lower()}_ctor{r}", [f, x], lambda st: (T.must(st, T.elem_alive(st, x), "the argument is still alive"), T.must(st, Eq(T.elem_val(st, x), v), "the argument is unchanged"), ncalls(T, st), T.frame(st, [])), [f])
for nm in ("p_ctor", "p_ctor_fn"):
    @task("C25", nm + NOST)
    def t(T, nm=nm):
        setup(T); f, _, _ = func(T, "f", "P", raw=True); v = T.e.fn_ptr(T.fn("target"))
        T.fails(nm, [f] + ([v] if nm == "p_ctor" else []), lambda st: (ncalls(T, st), T.frame(st, [])), [f])
