"""Contracts of cest::shared_ptr.  A control block is {vtable, count, pointer, deleter}; its dynamic type is one of the
real ones (default deleter, opaque deleter D, array), so the virtual calls run the real code.  Counts are symbolic."""
from spec import *
HARNESS = "sptr"
P = "C15"
def setup(T):
    e = T.e; lib.install_elem(e, "E", 1); lib.install_elem(e, "D", 1); T.done = []
    T.S_size = T.cval("S_size"); T.SP = T.cval("S_ptr"); T.SC = T.cval("S_ctrl"); T.CC = T.cval("C_count"); T.CP = T.cval("C_ptr"); T.CD = T.cval("C_del")
    E = lib.Elem("E"); Dl = lib.Elem("D")
    def run(e, st, fn, a, I):        # the opaque deleter: remembers the pointer, ends the object
        w = e.loc(I); L, v = Dl.need(e, st, a[0], w + "deleter: ")
        e.oblige(st, "owners" not in st.ghost, w + "no owner is left when the deleter runs")
        st.ghost["deleted"] = st.ghost.get("deleted", ()) + ((a[1], v),)
        if not (isc(a[1].obj) and a[1].obj == 0):
            L = E.loc(e, st, a[1], w, True); e.oblige(st, E.alive(e, st, L), w + "deleter gets a live object"); E.put(e, st, L, False, None)
    e.externs.append((re.compile(r"D::operator\(\)\(E\*\) const"), run))
    def dyncast(e, st, fn, a, I):    # __dynamic_cast to a class without further bases: the dynamic type is the target, or null
        p, dst = a[0], a[2]; vp = e.load(st, p, PTR, e.loc(I)); o = st.mem[vp.obj]; ti = T.cell(st, Ptr(vp.obj, 8), 0, "p")
        return p if ti.obj == dst.obj else NULL
    e.externs.append((re.compile(r"__dynamic_cast"), dyncast))
    T.done_externs()
class _P: kind = "ptr"; size = 8; name = "ptr"
PTR = _P()
def elem(T, name):
    o = T.e.new_obj(T.st, name, 1, heap=True); v = FInt(name + "_v")
    o.comps["alive"] = o.comp("alive").pt((0,), True); o.comps["val"] = o.comp("val").pt((0,), v)
    return Ptr(o.id, 0), v
def earr(T, name, n):
    """E[n] from operator new[]: count cookie, then the elements"""
    o = T.e.new_obj(T.st, name, Add(8, n), heap=True); SV = z3.Function(name + "_v", z3.IntSort(), z3.IntSort())
    T.set_cell(o, 0, "i64", n); o.comps["alive"] = FM.base(lambda key: And(Le(8, key[0]), Lt(key[0], Add(8, n)))); o.comps["val"] = FM.base(lambda key: SV(zi(key[0])))
    return Ptr(o.id, 8), SV
VT = {"def": r"vtable for .*ctrl_derived<E, .*def_del<E>\s?>", "D": r"vtable for .*shared_ptr_base<E, E>::ctrl_derived<E, D>", "arr": r"vtable for .*ctrl_derived<E, .*def_del<E ?\[\]>\s?>"}
def vtable(T, kind, why):
    c = T.e.m.gfind(VT[kind])
    if len(c) != 1: raise Unsupported(f"vtable of the {kind} control block: {c}")
    p = T.e.global_ptr(T.st, c[0]); return Ptr(p.obj, 16)
class G: pass
def group(T, name, kind="def", N=None, null=False):
    """an object shared by N owners, with its control block; kind: def, D, arr"""
    g = G(); g.kind = kind; g.name = name
    if kind == "arr": g.n = T.int(name + "_n"); T.assume(Lt(g.n, 1 << 40)); g.p, g.v = earr(T, name + ".array", g.n)
    elif null: g.p, g.v = NULL, None
    else: g.p, g.v = elem(T, name + ".object")
    g.N = N if N is not None else T.int(name + "_N")
    T.assume(And(Le(1, g.N), Lt(g.N, (1 << 62))))
    o = T.e.new_obj(T.st, name + ".ctrl", T.cval({"def": "CE_size", "D": "CD_size", "arr": "CA_size"}[kind]), heap=True); g.c = Ptr(o.id, 0)
    T.set_cell(o, 0, "p", vtable(T, kind, name)); T.set_cell(o, T.CC, "i64", g.N); T.set_cell(o, T.CP, "p", g.p)
    if kind == "D": g.d = FInt(name + "_del"); o.comps["alive"] = o.comp("alive").pt((T.CD,), True); o.comps["val"] = o.comp("val").pt((T.CD,), g.d)
    return g
def owner(T, name, g, p=None):
    """a shared_ptr: of group g, empty (g None), or raw storage (g 'raw')"""
    o = T.struct(name, T.S_size)
    if g != "raw":
        T.set_cell(o, T.SP, "p", (g.p if p is None else p) if g else NULL if p is None else p); T.set_cell(o, T.SC, "p", g.c if g else NULL)
    return Ptr(o.id, 0)
def is_owner(T, st, s, g, why, p=None):
    T.must(st, PEq(T.cell(st, s, T.SP, "p"), (g.p if p is None else p) if g else NULL if p is None else p), why + ": refers to the object")
    T.must(st, PEq(T.cell(st, s, T.SC, "p"), g.c if g else NULL), why + ": shares the bookkeeping")
def shared(T, st, g, n, why):
    """g is alive with n owners"""
    o = st.mem[g.c.obj]; T.must(st, o.live, why + ": the bookkeeping is not released")
    T.must(st, Eq(T.cell(st, g.c, T.CC, "i64"), n), why + ": the number of owners is right")
    T.must(st, PEq(T.cell(st, g.c, T.CP, "p"), g.p), why + ": the deleter's pointer is kept")
    vt = T.cell(st, g.c, 0, "p"); T.must(st, PEq(vt, T.cell(T.st, g.c, 0, "p")), why + ": same kind of bookkeeping")
    if g.kind == "D": T.must(st, Eq(T.e.fm_read(st, o.comp("val"), (T.CD,), None), g.d), why + ": the deleter is kept"); T.must(st, T.e.fm_read(st, o.comp("alive"), (T.CD,), None), why + ": the deleter is alive")
    if g.p.obj: untouched(T, st, g, why)
def untouched(T, st, g, why):
    o = st.mem[g.p.obj]; T.must(st, o.live, why + ": the object is not freed")
    if g.kind == "arr": T.frame_obj(st, g.p.obj, why) if hasattr(T, "frame_obj") else None; T.all(st, 0, g.n, lambda s, i: T.e.fm_read(s, s.mem[g.p.obj].comp("alive"), (Add(8, i),), None), why + ": every array element is alive")
    else: T.must(st, T.elem_alive(st, g.p), why + ": the object is alive"); T.must(st, Eq(T.elem_val(st, g.p), g.v), why + ": the object keeps its value")
def ended(T, st, g, why, live):
    """the last owner is gone: object deleted once, bookkeeping released"""
    T.must(st, not st.mem[g.c.obj].live, why + ": the bookkeeping is released")
    if g.kind == "D":
        d = st.ghost.get("deleted", ()); T.must(st, len(d) == 1, why + ": the deleter ran exactly once")
        T.must(st, PEq(d[0][0], g.p), why + ": the deleter got the pointer it was created with"); T.must(st, Eq(d[0][1], g.d), why + ": it was this object's deleter")
        if g.p.obj: live.append(g.p.obj)       # the opaque deleter keeps the storage
    elif g.p.obj: T.must(st, not st.mem[g.p.obj].live, why + ": the object is deleted")
def ids(*gs): return [x for g in gs if g for x in (g.c.obj, g.p.obj) if x]
def nodel(T, st): T.must(st, not st.ghost.get("deleted"), "no deleter runs")
for pre, arr in (("sp", 0), ("ap", 1)):
    KS = ["arr"] if arr else ["def", "D"]
    @task(P, pre + "_ctor")
    def t(T, pre=pre):
        setup(T); s = owner(T, "s", "raw")
        T.post(T.call(pre + "_ctor", s), lambda st, r: (is_owner(T, st, s, None, "empty"), T.frame(st, [])))
    for nm in ("ctor_p", "ctor_pd"):
        for null in (0, 1):
            if null and arr: continue
            @task(P, f"{pre}_{nm}{'[null]' if null else ''}")
            def t(T, pre=pre, nm=nm, arr=arr, null=null):
                setup(T); s = owner(T, "s", "raw"); g = G(); g.kind = "D" if nm == "ctor_pd" else "arr" if arr else "def"
                if arr: g.n = T.int("n"); T.assume(Lt(g.n, 1 << 40)); g.p, g.v = earr(T, "x", g.n)
                elif null: g.p, g.v = NULL, None
                else: g.p, g.v = elem(T, "x")
                args = [g.p]
                if nm == "ctor_pd": dp, g.d = T.elem("del"); args.append(dp)
                def post(st, r):
                    g.c = T.cell(st, s, T.SC, "p"); T.must(st, isc(g.c.obj) and g.c.obj in st.mem and g.c.off == 0, "has its own bookkeeping")
                    o = st.mem[g.c.obj]; T.must(st, o.heap and o.live, "bookkeeping is live heap storage")
                    T.must(st, PEq(T.cell(st, s, T.SP, "p"), g.p), "refers to the object"); T.must(st, Eq(T.cell(st, g.c, T.CC, "i64"), 1), "one owner")
                    T.must(st, PEq(T.cell(st, g.c, T.CP, "p"), g.p), "the deleter's pointer is the object's")
                    if nm == "ctor_pd": T.must(st, T.e.fm_read(st, o.comp("alive"), (T.CD,), None), "stores a deleter"); T.must(st, Eq(T.e.fm_read(st, o.comp("val"), (T.CD,), None), g.d), "stores a copy of the deleter"); T.must(st, T.elem_alive(st, dp), "the argument is left alone")
                    if g.p.obj: g2 = G(); g2.__dict__ = dict(g.__dict__); g2.kind = "arr" if arr else "def"; untouched(T, st, g2, "construction")
                    if not (arr and nm == "ctor_pd"): T.must(st, PEq(T.cell(st, g.c, 0, "p"), vtable_in(T, st, g.kind)), "the bookkeeping's dynamic type matches the deleter")
                    nodel(T, st); T.frame(st, ids(g))
                T.post(T.call(f"{pre}_{nm}", s, *args), post)
    for k in KS:
        @task(P, f"{pre}_copy[{k}]")
        def t(T, pre=pre, k=k):
            setup(T); s = owner(T, "s", "raw"); g = group(T, "g", k); o = owner(T, "o", g)
            T.post(T.call(pre + "_copy", s, o), lambda st, r: (is_owner(T, st, s, g, "copy"), is_owner(T, st, o, g, "source"), shared(T, st, g, Add(g.N, 1), "copy"), nodel(T, st), T.frame(st, ids(g))))
        for case in ("last", "more"):
            for null in ((0, 1) if k != "arr" else (0,)):
                @task(P, f"{pre}_dtor[{k},{case}{',null' if null else ''}]")
                def t(T, pre=pre, k=k, case=case, null=null):
                    setup(T); g = group(T, "g", k, 1 if case == "last" else None, null); s = owner(T, "s", g)
                    if case == "more": T.assume(Lt(1, g.N))
                    def post(st, r):
                        lv = []
                        if case == "last": ended(T, st, g, "last owner gone", lv)
                        else: shared(T, st, g, Sub(g.N, 1), "an owner less"); nodel(T, st); lv = ids(g)
                        T.frame(st, lv)
                    T.post(T.call(pre + "_dtor", s), post)
            # assignment over an owner of g: g loses an owner, h gains one
            for src in ("other", "empty"):
                @task(P, f"{pre}_assign[{k},{case},{src}]")
                def t(T, pre=pre, k=k, case=case, src=src):
                    setup(T); g = group(T, "g", k, 1 if case == "last" else None); s = owner(T, "s", g); h = group(T, "h", KS[0]) if src == "other" else None; o = owner(T, "o", h)
                    if case == "more": T.assume(Lt(1, g.N))
                    def post(st, r):
                        lv = ids(h); T.must(st, PEq(r, s), "returns itself"); is_owner(T, st, s, h, "assigned"); is_owner(T, st, o, h, "source")
                        if h: shared(T, st, h, Add(h.N, 1), "assigned object")
                        if case == "last": ended(T, st, g, "former object", lv)
                        else: shared(T, st, g, Sub(g.N, 1), "former object"); nodel(T, st); lv += ids(g)
                        T.frame(st, lv)
                    T.post(T.call(pre + "_assign", s, o), post)
        @task(P, f"{pre}_assign[{k},to empty]")
        def t(T, pre=pre, k=k):
            setup(T); g = group(T, "g", k); s = owner(T, "s", None); o = owner(T, "o", g)
            T.post(T.call(pre + "_assign", s, o), lambda st, r: (T.must(st, PEq(r, s), "returns itself"), is_owner(T, st, s, g, "assigned"), is_owner(T, st, o, g, "source"), shared(T, st, g, Add(g.N, 1), "assigned"), nodel(T, st), T.frame(st, ids(g))))
        @task(P, f"{pre}_assign[{k},self]")
        def t(T, pre=pre, k=k):
            setup(T); g = group(T, "g", k); s = owner(T, "s", g)
            T.post(T.call(pre + "_assign", s, s), lambda st, r: (T.must(st, PEq(r, s), "returns itself"), is_owner(T, st, s, g, "self-assignment"), shared(T, st, g, g.N, "self-assignment"), nodel(T, st), T.frame(st, ids(g))))
        @task(P, f"{pre}_assign[{k},co-owner]")
        def t(T, pre=pre, k=k):
            setup(T); g = group(T, "g", k); T.assume(Lt(1, g.N)); s = owner(T, "s", g); o = owner(T, "o", g)
            T.post(T.call(pre + "_assign", s, o), lambda st, r: (is_owner(T, st, s, g, "assigned"), is_owner(T, st, o, g, "source"), shared(T, st, g, g.N, "assignment between owners"), nodel(T, st), T.frame(st, ids(g))))
        for nm in ("count", "get", "bool") + (() if arr else ("deref", "arrow")):
            @task(P, f"{pre}_{nm}[{k}]")
            def t(T, pre=pre, k=k, nm=nm):
                setup(T); g = group(T, "g", k); s = owner(T, "s", g)
                def post(st, r):
                    if nm == "count": T.must(st, Eq(r, g.N), "reports the number of owners")
                    elif nm == "bool": T.must(st, zb(r), "true")
                    else: T.must(st, PEq(r, g.p), "refers to the object")
                    is_owner(T, st, s, g, nm); shared(T, st, g, g.N, nm); nodel(T, st); T.frame(st, ids(g), [s.obj])
                T.post(T.call(f"{pre}_{nm}", s), post)
    for nm in ("copy", "dtor", "assign", "count", "get", "bool"):
        @task(P, f"{pre}_{nm}[empty]")
        def t(T, pre=pre, nm=nm):
            setup(T); s = owner(T, "s", "raw" if nm == "copy" else None); args = [s]
            if nm in ("copy", "assign"): args.append(owner(T, "o", None))
            def post(st, r):
                if nm in ("copy", "assign"): is_owner(T, st, s, None, nm); is_owner(T, st, args[1], None, nm)
                if nm == "count": T.must(st, Eq(r, 0), "no owners")
                if nm == "get": T.must(st, PEq(r, NULL), "null")
                if nm == "bool": T.must(st, zb(r) == False, "false")
                nodel(T, st); T.frame(st, [])
            T.post(T.call(f"{pre}_{nm}", *args), post)
    @task(P, f"{pre}_assign[empty,self]")
    def t(T, pre=pre):
        setup(T); s = owner(T, "s", None)
        T.post(T.call(pre + "_assign", s, s), lambda st, r: (is_owner(T, st, s, None, "self-assignment"), T.frame(st, [])))
def vtable_in(T, st, kind): return vtable(T, kind, "")
@task(P, "ap_index")
def t(T):
    setup(T); g = group(T, "g", "arr"); s = owner(T, "s", g); i = T.int("i"); T.assume(Lt(i, g.n))
    T.post(T.call("ap_index", s, i), lambda st, r: (T.must(st, PEq(r, Ptr(g.p.obj, Add(8, i))), "refers to element i"), shared(T, st, g, g.N, "index"), T.frame(st, ids(g))))
@task(P, "sp_ctor_null")
def t(T):
    setup(T); s = owner(T, "s", "raw")
    T.post(T.call("sp_ctor_null", s), lambda st, r: (is_owner(T, st, s, None, "empty"), T.frame(st, [])))
for k in ("def", "D"):
    for emp in (0, 1):
        @task(P, f"sp_alias[{k}{',empty' if emp else ''}]")
        def t(T, k=k, emp=emp):
            setup(T); g = None if emp else group(T, "g", k); s = owner(T, "s", "raw"); o = owner(T, "o", g); x, xv = T.elem("part")
            T.post(T.call("sp_alias", s, o, x), lambda st, r: (is_owner(T, st, s, g, "alias", x), is_owner(T, st, o, g, "source"), g and shared(T, st, g, Add(g.N, 1), "alias"), nodel(T, st), T.frame(st, ids(g))))
    @task(P, f"sp_dtor[{k},alias,last]")
    def t(T, k=k):
        setup(T); g = group(T, "g", k, 1); x, xv = T.elem("part"); s = owner(T, "s", g, x)
        def post(st, r):
            lv = []; ended(T, st, g, "last owner (an alias) gone", lv); T.must(st, T.elem_alive(st, x), "the aliased part is left alone"); T.frame(st, lv)
        T.post(T.call("sp_dtor", s), post)
    # move operations: the source may be left empty or stay an owner; the count says which
    @task(P, f"sp_move[{k}]")
    def t(T, k=k):
        setup(T); g = group(T, "g", k); s = owner(T, "s", "raw"); o = owner(T, "o", g)
        def post(st, r):
            is_owner(T, st, s, g, "moved-to"); c = T.cell(st, o, T.SC, "p")
            if c.obj == 0: T.must(st, PEq(T.cell(st, o, T.SP, "p"), NULL), "an emptied source refers to nothing"); n = g.N
            else: is_owner(T, st, o, g, "source"); n = Add(g.N, 1)
            shared(T, st, g, n, "move"); nodel(T, st); T.frame(st, ids(g))
        T.post(T.call("sp_move", s, o), post)
    for case in ("last", "more"):
        @task(P, f"sp_massign[{k},{case}]")
        def t(T, k=k, case=case):
            setup(T); g = group(T, "g", k, 1 if case == "last" else None); h = group(T, "h", "def"); s = owner(T, "s", g); o = owner(T, "o", h)
            if case == "more": T.assume(Lt(1, g.N))
            def post(st, r):
                lv = ids(h); T.must(st, PEq(r, s), "returns itself"); is_owner(T, st, s, h, "assigned"); c = T.cell(st, o, T.SC, "p"); cnt = (h.N, g.N)
                gowned = False
                if c.obj == 0: T.must(st, PEq(T.cell(st, o, T.SP, "p"), NULL), "an emptied source refers to nothing"); hn = h.N
                elif c.obj == g.c.obj: is_owner(T, st, o, g, "source took the former object"); hn = h.N; gowned = True
                else: is_owner(T, st, o, h, "source"); hn = Add(h.N, 1)
                shared(T, st, h, hn, "assigned object")
                if gowned: shared(T, st, g, g.N, "former object"); lv += ids(g)
                elif case == "last": ended(T, st, g, "former object", lv)
                else: shared(T, st, g, Sub(g.N, 1), "former object"); nodel(T, st); lv += ids(g)
                T.frame(st, lv)
            T.post(T.call("sp_massign", s, o), post)
    @task(P, f"sp_massign[{k},self]")
    def t(T, k=k):
        setup(T); g = group(T, "g", k); s = owner(T, "s", g)
        T.post(T.call("sp_massign", s, s), lambda st, r: (is_owner(T, st, s, g, "self-move"), shared(T, st, g, g.N, "self-move"), nodel(T, st), T.frame(st, ids(g))))
@task(P, "sp_deleter")
def t(T):
    setup(T); g = group(T, "g", "D"); s = owner(T, "s", g)
    T.post(T.call("sp_deleter", s), lambda st, r: (T.must(st, PEq(r, Ptr(g.c.obj, T.CD)), "refers to the stored deleter"), shared(T, st, g, g.N, "get_deleter"), T.frame(st, ids(g))))
@task(P, "sp_deleter[other kind]")
def t(T):
    setup(T); g = group(T, "g", "def"); s = owner(T, "s", g)
    T.post(T.call("sp_deleter", s), lambda st, r: (T.must(st, PEq(r, NULL), "no deleter of that type"), shared(T, st, g, g.N, "get_deleter"), T.frame(st, ids(g))))
# owners that refer to something else than the owned object (aliases), or to nothing
def ref(T, what): return NULL if what == "null" else T.elem("part")[0]
for what in ("null", "part"):
    for k in ("def", "D"):
        @task(P, f"sp_alias[{k},{what}]")
        def t(T, k=k, what=what):
            setup(T); g = group(T, "g", k); s = owner(T, "s", "raw"); o = owner(T, "o", g); x = ref(T, what)
            T.post(T.call("sp_alias", s, o, x), lambda st, r: (is_owner(T, st, s, g, "alias", x), is_owner(T, st, o, g, "source"), shared(T, st, g, Add(g.N, 1), "alias"), nodel(T, st), T.frame(st, ids(g))))
        @task(P, f"sp_copy[{k},alias,{what}]")
        def t(T, k=k, what=what):
            setup(T); g = group(T, "g", k); x = ref(T, what); s = owner(T, "s", "raw"); o = owner(T, "o", g, x)
            T.post(T.call("sp_copy", s, o), lambda st, r: (is_owner(T, st, s, g, "copy", x), is_owner(T, st, o, g, "source", x), shared(T, st, g, Add(g.N, 1), "copy"), nodel(T, st), T.frame(st, ids(g))))
        @task(P, f"sp_assign[{k},co-owner alias,{what}]")
        def t(T, k=k, what=what):
            setup(T); g = group(T, "g", k); T.assume(Lt(1, g.N)); x = ref(T, what); s = owner(T, "s", g); o = owner(T, "o", g, x)
            T.post(T.call("sp_assign", s, o), lambda st, r: (is_owner(T, st, s, g, "assigned", x), is_owner(T, st, o, g, "source", x), shared(T, st, g, g.N, "assignment between owners"), nodel(T, st), T.frame(st, ids(g))))
        @task(P, f"sp_assign[{k},same pointer other owner,{what}]")
        def t(T, k=k, what=what):
            setup(T); g = group(T, "g", k, 1); h = group(T, "h", "def"); x = ref(T, what); s = owner(T, "s", g, x); o = owner(T, "o", h, x)
            def post(st, r):
                lv = ids(h); is_owner(T, st, s, h, "assigned", x); shared(T, st, h, Add(h.N, 1), "assigned object"); ended(T, st, g, "former object", lv); T.frame(st, lv)
            T.post(T.call("sp_assign", s, o), post)
        @task(P, f"sp_dtor[{k},alias,{what},last]")
        def t(T, k=k, what=what):
            setup(T); g = group(T, "g", k, 1); s = owner(T, "s", g, ref(T, what))
            def post(st, r): lv = []; ended(T, st, g, "last owner (an alias) gone", lv); T.frame(st, lv)
            T.post(T.call("sp_dtor", s), post)
        for nm in ("count", "get", "bool"):
            @task(P, f"sp_{nm}[{k},alias,{what}]")
            def t(T, k=k, nm=nm, what=what):
                setup(T); g = group(T, "g", k); x = ref(T, what); s = owner(T, "s", g, x)
                def post(st, r):
                    if nm == "count": T.must(st, Eq(r, g.N), "reports the number of owners")
                    elif nm == "bool": T.must(st, zb(r) == zb(what != "null"), "true exactly when it refers to something")
                    else: T.must(st, PEq(r, x), "refers to the aliased part")
                    shared(T, st, g, g.N, nm); nodel(T, st); T.frame(st, ids(g), [s.obj])
                T.post(T.call(f"sp_{nm}", s), post)
for nm in ("copy", "assign", "dtor", "count", "bool", "get"):
    @task(P, f"sp_{nm}[alias of empty]")
    def t(T, nm=nm):
        setup(T); x = ref(T, "part"); a = owner(T, "a", None, x); args = [a]
        if nm == "copy": args = [owner(T, "s", "raw"), a]
        if nm == "assign": args = [owner(T, "s", None), a]
        def post(st, r):
            if nm in ("copy", "assign"): is_owner(T, st, args[0], None, nm, x)
            if nm == "count": T.must(st, Eq(r, 0), "no owners")
            if nm == "bool": T.must(st, zb(r), "refers to something")
            if nm == "get": T.must(st, PEq(r, x), "refers to the part")
            nodel(T, st); T.frame(st, [])
        T.post(T.call("sp_" + nm, *args), post)
# ---- failing allocation (C25): the constructor owns the object even when there is no room for its bookkeeping
NOST = " when storage cannot be obtained"
for pre, arr in (("sp", 0), ("ap", 1)):
    for nm in ("ctor_p", "ctor_pd"):
        for null in (0, 1):
            if null and arr: continue
            @task("C25", f"{pre}_{nm}{'[null]' if null else ''}" + NOST)
            def t(T, pre=pre, nm=nm, arr=arr, null=null):
                setup(T); s = owner(T, "s", "raw"); args = []; d = None
                if arr: n = T.int("n"); T.assume(And(Lt(n, 1 << 40), Le(1 if nm == "ctor_pd" else 0, n))); p, _ = earr(T, "x", n)
                else: p = NULL if null else elem(T, "x")[0]
                if nm == "ctor_pd": dp, d = T.elem("del"); args.append(dp)
                def chk(st):
                    c = st.ghost.get("deleted", ())
                    if d is None: T.must(st, not c, "no other deleter runs"); T.must(st, bool(null) or not st.mem[p.obj].live, "after the failure: the object is deleted")
                    else:
                        T.must(st, len(c) == 1, "after the failure: the deleter ran exactly once"); T.must(st, len(c) == 1 and PEq(c[0][0], p), "after the failure: the deleter got the object"); T.must(st, len(c) == 1 and Eq(c[0][1], d), "after the failure: it was the given deleter"); T.must(st, T.elem_alive(st, dp), "the argument is left alone")
                    T.frame(st, [p.obj] if d is not None and p.obj else [])
                T.fails(f"{pre}_{nm}", [s, p] + args, chk, [s])
