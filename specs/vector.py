"""Contracts of cest::vector over the sequence model (n, S) and ghost element lifetimes."""
from spec import *
import loops
HARNESS = "vector"
DEF = z3.Int("DEFAULT_E")

class Vec(SeqRep):
    """Representation: size <= capacity; capacity>0 => storage is a live heap block of `capacity` elements,
    element slots [0,size) are live and hold S, the others are raw; capacity==0 => null storage."""
    push_back = r"cest::vector<E, std::allocator<E>>::push_back\(E( const&|&&)\)"
    size = r"cest::vector<E, std::allocator<E>>::size\(\) const"
    dtor = r"cest::vector<E, std::allocator<E>>::~vector\(\)"
    def __init__(self, T):
        self.T = T
        T.sz, T.osz, T.ocap, T.op = [T.cval("V_" + x) for x in ("sizeof", "off_size", "off_cap", "off_p")]
    def make(self, name, kind="alloc", struct=True):
        T = self.T; m = Model()
        o = T.struct(name, T.sz); m.p = Ptr(o.id, 0); m.kind = kind
        if kind == "alloc":
            m.n = T.int(name + "_n"); m.cap = T.int(name + "_cap")
            T.assume(And(Le(m.n, m.cap), Lt(0, m.cap), Le(m.cap, lib.MAXSZ)))
            b = T.e.new_obj(T.st, name + ".storage", m.cap, heap=True); m.buf = b.id
            f = FFun(name + "_S", z3.IntSort(), z3.IntSort()); m.S = lambda i: f(zi(i))
            b.comps["alive"] = FM.base(lambda key, n=m.n: InRange(0, key[0], n))
            b.comps["val"] = FM.base(lambda key, n=m.n, f=f: ("INIT", InRange(0, key[0], n), f(zi(key[0]))))
            ptr = Ptr(b.id, 0)
        else:
            m.n = 0; m.cap = 0; m.buf = None; m.S = lambda i: z3.IntVal(-1); ptr = NULL
        T.set_cell(o, T.osz, "i64", m.n); T.set_cell(o, T.ocap, "i64", m.cap); T.set_cell(o, T.op, "p", ptr)
        m.data = ptr
        return m
    def read(self, st, p, why="result"):
        """check the representation invariant and return the abstract value"""
        T = self.T; e = T.e; m = Model(); m.p = p
        if self.folded(st, p.obj): return self.model(st, p.obj)
        m.n = T.cell(st, p, T.osz, "i64"); m.cap = T.cell(st, p, T.ocap, "i64"); m.data = T.cell(st, p, T.op, "p")
        T.must(st, Le(m.n, m.cap), f"{why}: size <= capacity")
        obj = S(m.data.obj) if not isc(m.data.obj) else m.data.obj
        if not isc(obj):
            cs = [Eq(obj, i) for i in list(st.mem) + [0] if e.feasible(st, Eq(obj, i))]
            if len(cs) == 1: obj = [i for i in list(st.mem) + [0] if e.feasible(st, Eq(obj, i))][0]
            else: raise Fork(cs)
        if obj == 0:
            T.must(st, Eq(m.cap, 0), f"{why}: null storage only with capacity 0"); m.buf = None
            m.S = lambda i: z3.IntVal(-1); m.data = NULL
            return m
        m.data = Ptr(obj, m.data.off)
        b = st.mem[obj]
        if T.e.decide(st, Eq(m.cap, 0)) is True:
            T.must(st, False, f"{why}: capacity 0 owns no storage")
        T.must(st, b.live and b.heap, f"{why}: storage is live heap memory")
        T.must(st, Eq(m.data.off, 0), f"{why}: storage pointer is its base")
        T.must(st, Eq(b.size, m.cap), f"{why}: capacity matches the allocation")
        m.buf = obj
        k = FInt("slot"); s2 = st.copy(); e.assume(s2, InRange(0, k, m.cap))
        if e.feasible(s2):
            al = e.fm_read(s2, b.comp("alive"), (k,), None)
            T.must(s2, zb(al) == zb(InRange(0, k, m.n)), f"{why}: exactly the slots below size hold live elements")
        m.S = lambda i, b=b: e.fm_read(st, b.comp("val"), (i,), None)
        return m
    def same_seq(self, st, m, n, want, why):
        """m.n == n and for all i<n: m.S[i] == want(i)"""
        T = self.T
        T.must(st, Eq(m.n, n), f"{why}: size")
        i = FInt("i"); s2 = st.copy()
        try: T.e.assume(s2, InRange(0, i, n))
        except Dead: return
        if not T.e.feasible(s2): return
        m2 = m
        if m.folded: got = T.e.fm_read(s2, s2.mem[m.p.obj].comps["aval"], (i,), f"{why}: model")
        elif m.buf is None: T.must(s2, False, f"{why}: elements exist"); return
        else: got = T.e.fm_read(s2, s2.mem[m.buf].comp("val"), (i,), None)
        T.must(s2, Eq(got, want(i)), f"{why}: element i has the specified value")

def setup(T):
    lib.install_elem(T.e, "E", 1, DEF); T.done_externs()
    import std_contracts; std_contracts.install(T.e)
    V = Vec(T); V.contracts(T.e)
    return V
BOTH = ["C01", "C02"]
KINDS = ["alloc", "empty"]

def unary(fn, post, extra=None, kinds=KINDS, props=BOTH, throws=()):
    for kd in kinds:
        def run(T, kd=kd):
            V = setup(T); v = V.make("v", kd)
            args = extra(T, v) if extra else []
            outs = T.call(fn, v.p, *args)
            def chk(st, ret):
                m = V.read(st, v.p)
                post(T, V, st, v, m, ret, *args)
                T.frame(st, {m.buf})
            T.post(outs, chk, throws(v, *args) if callable(throws) else throws)
        task(props, f"{fn}[{kd}]")(run)

def unchanged(T, V, st, v, m, what="vector unchanged"):
    V.same_seq(st, m, v.n, v.S, what)
    T.must(st, Eq(m.cap, v.cap), what + ": capacity"); T.must(st, m.buf == v.buf, what + ": storage not reallocated")

# ---- construction
@task(BOTH)
def vec_ctor(T):
    V = setup(T); o = T.struct("v", T.sz); p = Ptr(o.id, 0)
    def chk(st, ret):
        m = V.read(st, p); T.must(st, Eq(m.n, 0), "default vector is empty"); T.frame(st, {m.buf})
    T.post(T.call("vec_ctor", p), chk)
for kd in KINDS:
    def ctor_copy(T, kd=kd):
        V = setup(T); s = V.make("src", kd); o = T.struct("v", T.sz); p = Ptr(o.id, 0)
        def chk(st, ret):
            m = V.read(st, p); V.same_seq(st, m, s.n, s.S, "copy")
            ms = V.read(st, s.p, "source"); unchanged(T, V, st, s, ms, "source unchanged")
            T.must(st, m.buf is None or m.buf != ms.buf, "copy shares no storage"); T.frame(st, {m.buf, ms.buf})
        T.post(T.call("vec_ctor_copy", p, s.p), chk)
    task(BOTH, f"vec_ctor_copy[{kd}]")(ctor_copy)
    def ctor_move(T, kd=kd):
        V = setup(T); s = V.make("src", kd); o = T.struct("v", T.sz); p = Ptr(o.id, 0)
        def chk(st, ret):
            m = V.read(st, p); V.same_seq(st, m, s.n, s.S, "moved")
            ms = V.read(st, s.p, "source"); T.frame(st, {m.buf, ms.buf})
            T.must(st, ms.buf is None or m.buf != ms.buf, "no shared storage")
        T.post(T.call("vec_ctor_move", p, s.p), chk)
    task(BOTH, f"vec_ctor_move[{kd}]")(ctor_move)
    def dtor(T, kd=kd):
        V = setup(T); s = V.make("v", kd)
        T.post(T.call("vec_dtor", s.p), lambda st, ret: T.frame(st, set()))
    task(BOTH, f"vec_dtor[{kd}]")(dtor)
@task(BOTH)
def vec_ctor_count(T):
    V = setup(T); n = T.int("n"); o = T.struct("v", T.sz); p = Ptr(o.id, 0)
    def chk(st, ret):
        m = V.read(st, p); V.same_seq(st, m, n, lambda i: DEF, "count constructor"); T.frame(st, {m.buf})
    T.post(T.call("vec_ctor_count", p, n), chk)
@task(BOTH)
def vec_ctor_il(T):
    V = setup(T); n = T.int("n"); o = T.struct("v", T.sz); p = Ptr(o.id, 0); V.register(p)
    T.assume(Le(n, lib.MAXSZ))
    a = T.struct("list", n); f = FFun("L", z3.IntSort(), z3.IntSort())
    a.comps["alive"] = FM.base(lambda key: InRange(0, key[0], n))
    a.comps["val"] = FM.base(lambda key: ("INIT", InRange(0, key[0], n), f(zi(key[0]))))
    def chk(st, ret):
        m = V.read(st, p); V.same_seq(st, m, n, lambda i: f(i), "list constructor"); T.frame(st, {m.buf}, [a.id])
    T.post(T.call("vec_ctor_il", p, Ptr(a.id, 0), n), chk)

# ---- pairs of vectors
def binary(fn, post, self_alias=True, props=BOTH, ret=True):
    for k1 in KINDS:
        for k2 in KINDS + (["self"] if self_alias else []):
            def run(T, k1=k1, k2=k2):
                V = setup(T); v = V.make("v", k1); o = v if k2 == "self" else V.make("o", k2)
                outs = T.call(fn, v.p, o.p)
                def chk(st, ret):
                    m = V.read(st, v.p); mo = m if k2 == "self" else V.read(st, o.p, "other")
                    post(T, V, st, v, o, m, mo, ret)
                    if k2 != "self": T.must(st, m.buf is None or m.buf != mo.buf, "no shared storage")
                    T.frame(st, {m.buf, mo.buf})
                T.post(outs, chk)
            task(props, f"{fn}[{k1},{k2}]")(run)
def p_assign(T, V, st, v, o, m, mo, ret):
    V.same_seq(st, m, o.n, o.S, "assigned")
    if o is not v: unchanged(T, V, st, o, mo, "source unchanged")
    T.must(st, PEq(ret, v.p), "returns *this")
binary("vec_assign_copy", p_assign)
def p_move(T, V, st, v, o, m, mo, ret):
    V.same_seq(st, m, o.n, o.S, "move-assigned"); T.must(st, PEq(ret, v.p), "returns *this")
binary("vec_assign_move", p_move)
def p_swap(T, V, st, v, o, m, mo, ret):
    V.same_seq(st, m, o.n, o.S, "swapped"); V.same_seq(st, mo, v.n, v.S, "swapped other")
binary("vec_swap", p_swap)
def p_eq(T, V, st, v, o, m, mo, ret):
    unchanged(T, V, st, v, m); unchanged(T, V, st, o, mo)
    if T.split(st, ret):
        T.must(st, Eq(v.n, o.n), "equal vectors have equal sizes")
        T.all(st, 0, v.n, lambda s, i: Eq(v.S(i), o.S(i)), "equal vectors have equal elements")
    else:
        w = T.witnesses(st)
        T.must(st, Or(Ne(v.n, o.n), *[And(InRange(0, x, v.n), Ne(v.S(x), o.S(x))) for x in w]), "unequal vectors differ in size or in some element")
binary("vec_eq", p_eq, props=["C01"])

# ---- modifiers
def p_reserve(T, V, st, v, m, ret, n):
    V.same_seq(st, m, v.n, v.S, "reserve keeps the sequence"); T.must(st, Le(n, m.cap), "capacity at least requested")
    T.must(st, Le(v.cap, m.cap), "capacity does not shrink")
    if T.split(st, Le(n, v.cap)): T.must(st, m.buf == v.buf, "no reallocation when capacity suffices")
unary("vec_reserve", p_reserve, lambda T, v: [T.int("new_cap")])
def p_resize(T, V, st, v, m, ret, n):
    V.same_seq(st, m, n, lambda i: If(Lt(i, v.n), v.S(i), DEF), "resize")
unary("vec_resize", p_resize, lambda T, v: [T.int("count")])
def p_clear(T, V, st, v, m, ret): T.must(st, Eq(m.n, 0), "cleared")
unary("vec_clear", p_clear)
def p_pop(T, V, st, v, m, ret): V.same_seq(st, m, Sub(v.n, 1), v.S, "pop_back")
def nonempty(T, v): T.assume(Lt(0, v.n)); return []
unary("vec_pop_back", p_pop, nonempty, kinds=["alloc"])

for fn in ("vec_push_back", "vec_push_back_move"):
    for kd in ("alloc", "empty", "alias"):
        def push(T, fn=fn, kd=kd):
            V = setup(T); v = V.make("v", "alloc" if kd == "alias" else kd)
            if kd == "alias":
                j = T.int("j"); T.assume(Lt(j, v.n)); x = Ptr(v.buf, j); a = v.S(j)
            else: x, a = T.elem("x")
            outs = T.call(fn, v.p, x)
            def chk(st, ret):
                m = V.read(st, v.p)
                mv = fn.endswith("move") and kd == "alias"
                T.must(st, Eq(m.n, Add(v.n, 1)), "push_back: size")
                i = FInt("i"); s2 = st.copy(); T.e.assume(s2, InRange(0, i, m.n))
                if mv: T.e.assume(s2, Ne(i, j))     # a moved-from argument keeps an unspecified value
                got = T.e.fm_read(s2, s2.mem[m.buf].comp("val"), (i,), None)
                T.must(s2, Eq(got, If(Lt(i, v.n), v.S(i), a)), "push_back: element i has the specified value")
                if kd != "alias":
                    T.must(st, T.elem_alive(st, x), "argument stays alive")
                    if not fn.endswith("move"): T.must(st, Eq(T.elem_val(st, x), a), "argument unchanged")
                if T.split(st, Lt(v.n, v.cap)): T.must(st, m.buf == v.buf, "no reallocation when capacity suffices")
                T.frame(st, {m.buf})
            T.post(outs, chk)
        task(BOTH, f"{fn}[{kd}]")(push)

def erase(T):
    V = setup(T); v = V.make("v"); a = T.int("a"); b = T.int("b"); T.assume(And(Le(a, b), Le(b, v.n)))
    outs = T.call("vec_erase", v.p, Ptr(v.buf, a), Ptr(v.buf, b))
    def chk(st, ret):
        m = V.read(st, v.p)
        V.same_seq(st, m, Sub(v.n, Sub(b, a)), lambda i: If(Lt(i, a), v.S(i), v.S(S(i + (b - a)))), "erase")
        T.must(st, PEq(ret, Ptr(v.buf, a)), "erase returns the position after the erased range"); T.frame(st, {m.buf})
    T.post(outs, chk)
task(BOTH, "vec_erase")(erase)

# ---- observers
def obs(fn, want, extra=None, kinds=KINDS, pre=None, throws=()):
    def post(T, V, st, v, m, ret, *a):
        unchanged(T, V, st, v, m); w = want(v, *a)
        T.must(st, VEq(ret, w) if not isinstance(ret, (bool, z3.BoolRef)) else Eq(zb(ret), zb(w)), f"{fn} result")
    unary(fn, post, extra, kinds, ["C01"], throws)
obs("vec_empty", lambda v: Eq(v.n, 0)); obs("vec_size", lambda v: v.n); obs("vec_capacity", lambda v: v.cap)
for f in ("vec_begin", "vec_begin_c", "vec_cbegin", "vec_data", "vec_data_c", "vec_rend", "vec_rend_c"): obs(f, lambda v: v.data)
for f in ("vec_end", "vec_end_c", "vec_cend"): obs(f, lambda v: Ptr(v.data.obj, v.n))
for f in ("vec_front", "vec_front_c"): obs(f, lambda v: v.data, nonempty, ["alloc"])
for f in ("vec_back", "vec_back_c", "vec_rbegin", "vec_rbegin_c"): obs(f, lambda v: Ptr(v.data.obj, Sub(v.n, 1)), nonempty, ["alloc"])
def idx(T, v): i = T.int("pos"); T.assume(Lt(i, v.n)); return [i]
for f in ("vec_index", "vec_index_c"): obs(f, lambda v, i: Ptr(v.data.obj, i), idx, ["alloc"])
for f in ("vec_at", "vec_at_c"):
    def want(T, V, st, v, m, ret, i):
        unchanged(T, V, st, v, m); T.must(st, Lt(i, v.n), "at returns only for positions below size"); T.must(st, PEq(ret, Ptr(v.data.obj, i)), "at result")
    def thr(v, i): return [(r"throw _ZTISt12out_of_range", Le(v.n, i))]
    def run_at(T, f=f, want=want, thr=thr):
        V = setup(T); v = V.make("v"); i = T.int("pos")
        outs = T.call(f, v.p, i)
        T.must(T.st, any(o[0] == "throw" for o in outs), "a position at or beyond size throws")
        T.post(outs, lambda st, ret: want(T, V, st, v, V.read(st, v.p), ret, i), thr(v, i))
    task(["C01"], f"{f}[alloc]")(run_at)
    def run_at0(T, f=f, thr=thr):
        V = setup(T); v = V.make("v", "empty"); i = T.int("pos")
        outs = T.call(f, v.p, i)
        T.must(T.st, all(o[0] == "throw" for o in outs), "every position of an empty vector throws")
        T.post(outs, lambda st, ret: None, thr(v, i))
    task(["C01"], f"{f}[empty]")(run_at0)


# ---- failing allocations (C25)
def vfail(fn, kinds, mk, fresh=False, keep=unchanged):
    for kd in kinds:
        @task("C25", f"{fn}[{kd}] when storage cannot be obtained")
        def run(T, kd=kd):
            V = setup(T); vs, args = mk(T, V, kd)
            def chk(st):
                bufs = set()
                for v in vs:
                    m = V.read(st, v.p, "after the failure"); unchanged(T, V, st, v, m); bufs.add(m.buf)
                for x in args:
                    if isinstance(x, Ptr) and isc(x.obj) and "alive" in st.mem[x.obj].comps and st.mem[x.obj].name == "x":
                        T.must(st, T.elem_alive(st, x), "argument stays alive"); T.must(st, Eq(T.elem_val(st, x), st.ghost["xval"]), "argument unchanged")
                T.frame(st, bufs)
            T.fails(fn, args, chk, [a for a in args if isinstance(a, Ptr) and isc(a.obj) and T.st.mem[a.obj].name == "new"])
def one(*extra):
    def mk(T, V, kd): v = V.make("v", kd); return [v], [v.p] + [T.int(x) for x in extra]
    return mk
vfail("vec_reserve", KINDS, one("new_cap")); vfail("vec_resize", KINDS, one("count"))
def mkpush(T, V, kd):
    v = V.make("v", "alloc" if kd == "alias" else kd)
    if kd == "alias": j = T.int("j"); T.assume(Lt(j, v.n)); return [v], [v.p, Ptr(v.buf, j)]
    x, a = T.elem("x"); T.st.ghost["xval"] = a; return [v], [v.p, x]
for f in ("vec_push_back", "vec_push_back_move"): vfail(f, ["alloc", "empty", "alias"], mkpush)
def mknew(T, V): return Ptr(T.struct("new", T.sz).id, 0)
def mkcopy(T, V, kd): s = V.make("src", kd); return [s], [mknew(T, V), s.p]
vfail("vec_ctor_copy", ["alloc"], mkcopy)
vfail("vec_ctor_count", ["any"], lambda T, V, kd: ([], [mknew(T, V), T.int("n")]))
def mkasg(T, V, kd): v = V.make("v", kd); o = V.make("o"); return [v, o], [v.p, o.p]
vfail("vec_assign_copy", KINDS, mkasg)

def mkil(T, V, kd):
    n = T.int("n"); p = mknew(T, V); V.register(p); T.assume(Le(n, lib.MAXSZ))
    a = T.struct("list", n); f = FFun("L", z3.IntSort(), z3.IntSort())
    a.comps["alive"] = FM.base(lambda key: InRange(0, key[0], n)); a.comps["val"] = FM.base(lambda key: ("INIT", InRange(0, key[0], n), f(zi(key[0]))))
    return [], [p, Ptr(a.id, 0), n]
vfail("vec_ctor_il", ["any"], mkil)
