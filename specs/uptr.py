"""Contracts of cest::unique_ptr: ownership as ghost lifetimes of the owned object."""
from spec import *
HARNESS = "uptr"
P = "C14"
FROMINT = z3.Function("E_from_int", z3.IntSort(), z3.IntSort())
def setup(T):
    lib.install_elem(T.e, "E", 1); e = T.e
    E = lib.Elem("E")
    e.externs.append((re.compile(r"E::E\(int\)"), lambda e, st, fn, a, I: E.construct(e, st, a[0], FROMINT(zi(a[1])), e.loc(I))))
    T.holders = []
    # an owner gives the object up before destroying it
    old = next(f for rx, f in e.externs if rx.pattern == r"E::~E\(\)")
    def dtor(e, st, fn, a, I):
        for u in T.holders:
            q = T.cell(st, u, 0, "p")
            e.oblige(st, Not(PEq(q, a[0])), e.loc(I) + "an object is not deleted while still owned")
        return old(e, st, fn, a, I)
    e.externs.insert(0, (re.compile(r"E::~E\(\)"), dtor)); T.done_externs()
def owned(T, name):
    o = T.e.new_obj(T.st, name, 1, heap=True); v = FInt(name + "_v")
    o.comps["alive"] = o.comp("alive").pt((0,), True); o.comps["val"] = o.comp("val").pt((0,), v)
    return Ptr(o.id, 0), v
def uptr(T, name, kind):
    o = T.struct(name, T.cval("U_sizeof")); p = Ptr(o.id, 0)
    if kind == "raw": return p, NULL, None
    q, v = owned(T, name + ".object") if kind == "own" else (NULL, None)
    T.set_cell(o, 0, "p", q); return p, q, v
def holds(T, st, u, q, why): T.must(st, PEq(T.cell(st, u, 0, "p"), q), why)
def alive(T, st, q, v, why):
    if q.obj == 0: return
    T.must(st, st.mem[q.obj].live, why + ": the object is not freed"); T.must(st, T.elem_alive(st, q), why + ": the object is alive"); T.must(st, Eq(T.elem_val(st, q), v), why + ": the object keeps its value")
def gone(T, st, q, why):
    if q.obj == 0: return
    T.must(st, not st.mem[q.obj].live, why + ": the object's storage is released"); T.must(st, Not(T.elem_alive(st, q)), why + ": the object is destroyed")
KS = ("own", "null")
@task(P, "up_ctor")
def t(T):
    setup(T); u, _, _ = uptr(T, "u", "raw")
    T.post(T.call("up_ctor", u), lambda st, r: (holds(T, st, u, NULL, "a default pointer owns nothing"), T.frame(st, [])))
def each(*ks):
    import itertools
    return itertools.product(*ks)
for k in KS:
    @task(P, f"up_ctor_p[{k}]")
    def t(T, k=k):
        setup(T); u, _, _ = uptr(T, "u", "raw"); q, v = owned(T, "x") if k == "own" else (NULL, None)
        T.post(T.call("up_ctor_p", u, q), lambda st, r: (holds(T, st, u, q, "owns the given object"), alive(T, st, q, v, "construction"), T.frame(st, [q.obj])))
    @task(P, f"up_ctor_move[{k}]")
    def t(T, k=k):
        setup(T); u, _, _ = uptr(T, "u", "raw"); o, q, v = uptr(T, "o", k); T.holders = [o]
        T.post(T.call("up_ctor_move", u, o), lambda st, r: (holds(T, st, u, q, "move takes the object over"), holds(T, st, o, NULL, "the source gives it up"), alive(T, st, q, v, "move"), T.frame(st, [q.obj])))
    @task(P, f"up_assign[self,{k}]")
    def t(T, k=k):
        setup(T); u, q, v = uptr(T, "u", k)
        T.post(T.call("up_assign", u, u), lambda st, r: (T.must(st, PEq(r, u), "returns itself"), holds(T, st, u, q, "self-move keeps the object"), alive(T, st, q, v, "self-move"), T.frame(st, [q.obj])))
    @task(P, f"up_dtor[{k}]")
    def t(T, k=k):
        setup(T); u, q, v = uptr(T, "u", k)
        T.post(T.call("up_dtor", u), lambda st, r: (gone(T, st, q, "destruction"), T.frame(st, [])))
    for nm in ("up_get", "up_arrow"):
        @task(P, f"{nm}[{k}]")
        def t(T, k=k, nm=nm):
            setup(T); u, q, v = uptr(T, "u", k)
            T.post(T.call(nm, u), lambda st, r: (T.must(st, PEq(r, q), "reports the owned pointer"), holds(T, st, u, q, "unchanged"), alive(T, st, q, v, nm), T.frame(st, [q.obj])))
    @task(P, f"up_release[{k}]")
    def t(T, k=k):
        setup(T); u, q, v = uptr(T, "u", k)
        T.post(T.call("up_release", u), lambda st, r: (T.must(st, PEq(r, q), "returns the owned pointer"), holds(T, st, u, NULL, "owns nothing afterwards"), alive(T, st, q, v, "release"), T.frame(st, [q.obj])))
    @task(P, f"up_reset[{k}]")
    def t(T, k=k):
        setup(T); u, q, v = uptr(T, "u", k); T.holders = [u]
        T.post(T.call("up_reset", u), lambda st, r: (holds(T, st, u, NULL, "owns nothing afterwards"), gone(T, st, q, "reset"), T.frame(st, [])))
    for k2 in KS:
        @task(P, f"up_reset_p[{k},{k2}]")
        def t(T, k=k, k2=k2):
            setup(T); u, q, v = uptr(T, "u", k); x, w = owned(T, "x") if k2 == "own" else (NULL, None); T.holders = [u]
            T.post(T.call("up_reset_p", u, x), lambda st, r: (holds(T, st, u, x, "owns the new object"), gone(T, st, q, "reset"), alive(T, st, x, w, "reset"), T.frame(st, [x.obj])))
        @task(P, f"up_assign[{k},{k2}]")
        def t(T, k=k, k2=k2):
            setup(T); u, q, v = uptr(T, "u", k); o, x, w = uptr(T, "o", k2)
            def post(st, r):
                T.must(st, PEq(r, u), "returns itself"); holds(T, st, u, x, "the assigned pointer takes the object over"); alive(T, st, x, w, "move assignment")
                # the former object is deleted, or has exactly one owner: the source
                c = T.cell(st, o, 0, "p")
                if q.obj != 0 and st.mem[q.obj].live:
                    T.must(st, PEq(c, q), "the former object is still owned, by the source"); alive(T, st, q, v, "former object"); T.frame(st, [x.obj, q.obj])
                else:
                    T.must(st, PEq(c, NULL), "the source gives the object up"); gone(T, st, q, "former object"); T.frame(st, [x.obj])
            T.post(T.call("up_assign", u, o), post)
        @task(P, f"up_seq_assign[{k},{k2}]")
        def t(T, k=k, k2=k2):
            setup(T); u, q, v = uptr(T, "u", k); o, x, w = uptr(T, "o", k2)
            T.post(T.call("up_seq_assign", u, o), lambda st, r: (gone(T, st, q, "history"), gone(T, st, x, "history"), T.frame(st, [])))
        for nm in ("eq", "ne", "lt", "le", "gt", "ge"):
            for same in ((0, 1) if k == k2 == "own" else (0,)):
                @task(P, f"up_{nm}[{k},{k2}{',same' if same else ''}]")
                def t(T, k=k, k2=k2, nm=nm, same=same):
                    setup(T); u, q, v = uptr(T, "u", k); o, x, w = (u, q, v) if same else uptr(T, "o", k2)
                    a, b = T.e.addr(q), T.e.addr(x)
                    ad = {"eq": PEq(q, x), "ne": Not(PEq(q, x)), "lt": Lt(a, b), "le": Le(a, b), "gt": Lt(b, a), "ge": Le(b, a)}[nm]
                    T.post(T.call("up_" + nm, u, o), lambda st, r: (T.must(st, zb(r) == zb(ad), "compares the owned pointers"), T.frame(st, [q.obj, x.obj], [u.obj, o.obj])))
    @task(P, f"up_bool[{k}]")
    def t(T, k=k):
        setup(T); u, q, v = uptr(T, "u", k)
        T.post(T.call("up_bool", u), lambda st, r: (T.must(st, zb(r) == zb(k == "own"), "true exactly when it owns an object"), T.frame(st, [q.obj], [u.obj])))
    @task(P, f"up_seq_move[{k}]")
    def t(T, k=k):
        setup(T); u, q, v = uptr(T, "u", k)
        T.post(T.call("up_seq_move", u), lambda st, r: (holds(T, st, u, q, "ownership travels back"), alive(T, st, q, v, "history"), T.frame(st, [q.obj])))
    @task(P, f"up_conv[{k}]")
    def t(T, k=k):
        setup(T); u = T.struct("u", 8); o = T.struct("o", 8); q = Ptr(T.e.new_obj(T.st, "derived", 24, heap=True).id, 0) if k == "own" else NULL
        T.set_cell(o, 0, "p", q); u, o = Ptr(u.id, 0), Ptr(o.id, 0)
        T.post(T.call("up_conv", u, o), lambda st, r: (holds(T, st, u, q, "conversion takes the object over"), holds(T, st, o, NULL, "the source gives it up"), T.frame(st, [q.obj])))
for nm in ("up_deref", "up_cderef"):
    @task(P, nm)
    def t(T, nm=nm):
        setup(T); u, q, v = uptr(T, "u", "own")
        T.post(T.call(nm, u), lambda st, r: (T.must(st, PEq(r, q), "refers to the owned object"), alive(T, st, q, v, nm), T.frame(st, [q.obj], [u.obj])))
for nm in ("up_make0", "up_make_c", "up_make_m", "up_make_i"):
    @task(P, nm)
    def t(T, nm=nm):
        setup(T); u, _, _ = uptr(T, "u", "raw"); args = []; want = z3.Int("DEFAULT_E")
        if nm in ("up_make_c", "up_make_m"): x, want = T.elem("x"); args = [x]
        if nm == "up_make_i": i = T.int("i", 32); args = [i]; want = FROMINT(i)
        def post(st, r):
            q = T.cell(st, u, 0, "p"); T.must(st, isc(q.obj) and q.obj in st.mem and q.obj != 0, "owns an object")
            o = st.mem[q.obj]; T.must(st, o.heap and o.live, "the object is live heap storage"); T.must(st, Eq(q.off, 0), "the pointer is the start of the allocation"); T.must(st, Eq(o.size, T.cval("E_size")), "storage of the object's size")
            alive(T, st, q, want, "make_unique"); T.frame(st, [q.obj])
            if args and nm != "up_make_i": T.must(st, T.elem_alive(st, args[0]), "the argument is still alive"); nm == "up_make_c" and T.must(st, Eq(T.elem_val(st, args[0]), want), "a copied argument is unchanged")
        T.post(T.call(nm, u, *args), post)
