"""Representation of cest::basic_string<char>, shared by the specs that use strings."""
from spec import *
import havoc
class BufRep:
    """during construction loops: the string owns one live buffer of capacity+1 initialised characters"""
    def __init__(self, T, id): self.T = T; self.id = id
    def active(self, st):
        try: b = self.buf(None, st)
        except Exception: return False
        return b in st.mem
    def buf(self, e, st):
        o = st.mem[self.id]; n = o.comp("po")
        while n.kind == "pt":
            if n.a[0] == self.T.op: return n.b
            n = n.parent
        return None
    def fields(self): return {(("o", self.id), "po", (self.T.op,)), (("o", self.id), "pp", (self.T.op,)), (("o", self.id), "i64", (self.T.ocap,))}
    def havoc(self, e, st):
        T = self.T
        old = self.buf(e, st); st.mem.pop(old, None)
        cap = FInt("cap"); e.assume(st, And(Le(1, cap), Lt(cap, lib.MAXSZ)))
        b = e.new_obj(st, "buffer", Add(cap, 1), True); f = FFun("G", z3.IntSort(), z3.IntSort())
        b.dtype = "i8"; b.comps["i8"] = FM.base(bytes_of(T, f, lambda k: InRange(0, k, Add(cap, 1))))
        o = st.wobj(self.id)
        o.comps["po"] = o.comp("po").pt((T.op,), b.id); o.comps["pp"] = o.comp("pp").pt((T.op,), 0); o.comps["i64"] = o.comp("i64").pt((T.ocap,), cap)
    def check(self, e, st, where):
        T = self.T; p = Ptr(self.id, 0)
        b = st.mem.get(self.buf(e, st)); cap = T.cell(st, p, T.ocap, "i64")
        ok = b is not None and b.live and b.heap
        e.oblige(st, ok, where + ": the string owns a live buffer")
        if ok:
            e.oblige(st, And(Eq(b.size, Add(cap, 1)), Le(1, cap)), where + ": buffer size is capacity + 1")
            k = FInt("k"); s = st.copy(); e.assume(s, InRange(0, k, b.size))
            e.fm_read(s, b.comp("i8"), (k,), where + ": buffer")

def bytes_of(T, f, cond):
    """base map of initialised bytes f(i); each value used is constrained to be a byte"""
    seen = set()
    def g(key):
        t = f(zi(key[0]))
        if t.get_id() not in seen:
            seen.add(t.get_id()); T.e.keep.append(t); T.e.axiom(z3.And(t >= 0, t < 256))
        return ("INIT", cond(key[0]), t)
    return g

class Str:
    """Representation: 1 <= capacity, size <= capacity; p is a live heap block of capacity+1 initialised characters;
    characters [0,size) are S, character `size` is the terminator."""
    def __init__(self, T):
        self.T = T; T.e.keep = []
        T.sz, T.osz, T.ocap, T.op = [T.cval("S_" + x) for x in ("sizeof", "off_size", "off_cap", "off_p")]
    def make(self, name):
        T = self.T; m = Model(); o = T.struct(name, T.sz); m.p = Ptr(o.id, 0)
        m.n = T.int(name + "_n"); m.cap = T.int(name + "_cap")
        T.assume(And(Le(m.n, m.cap), Le(1, m.cap), Lt(m.cap, lib.MAXSZ)))
        b = T.e.new_obj(T.st, name + ".buffer", Add(m.cap, 1), heap=True); m.buf = b.id
        f = FFun(name + "_S", z3.IntSort(), z3.IntSort()); m.f = f
        base = bytes_of(T, f, lambda k: InRange(0, k, Add(m.cap, 1)))
        b.dtype = "i8"; b.comps["i8"] = FM.base(base).pt((m.n,), 0)
        def rd(i):
            base((i,)); return f(zi(i))
        m.S = rd                                   # characters [0, n)
        m.at = lambda i, m=m: If(Eq(i, m.n), 0, rd(i))   # including the terminator
        T.set_cell(o, T.osz, "i64", m.n); T.set_cell(o, T.ocap, "i64", m.cap); T.set_cell(o, T.op, "p", Ptr(b.id, 0))
        m.data = Ptr(b.id, 0)
        T.st.ghost["nuls"] = T.st.ghost.get("nuls", ()) + ((b.id, m.n),)
        return m
    def read(self, st, p, why="result"):
        T = self.T; e = T.e; m = Model(); m.p = p
        m.n = T.cell(st, p, T.osz, "i64"); m.cap = T.cell(st, p, T.ocap, "i64"); m.data = T.cell(st, p, T.op, "p")
        T.must(st, And(Le(m.n, m.cap), Le(1, m.cap)), f"{why}: size <= capacity, capacity >= 1")
        obj = S(m.data.obj) if not isc(m.data.obj) else m.data.obj
        if not isc(obj): raise Fork([Eq(obj, i) for i in list(st.mem) + [0] if e.feasible(st, Eq(obj, i))])
        if obj == 0 or obj not in st.mem: T.must(st, False, f"{why}: storage is allocated")
        b = st.mem[obj]; m.buf = obj
        T.must(st, b.live and b.heap, f"{why}: storage is live heap memory")
        T.must(st, And(Eq(m.data.off, 0), Eq(b.size, Add(m.cap, 1))), f"{why}: storage is exactly capacity + 1 characters")
        s = st.copy(); k = FInt("k")
        try:
            e.assume(s, InRange(0, k, Add(m.cap, 1)))
            v = e.fm_read(s, b.comp("i8"), (k,), f"post: {why}: every character of the storage")
        except Dead: pass
        t = e.fm_read(st, b.comp("i8"), (m.n,), f"post: {why}: terminator")
        T.must(st, Eq(t, 0), f"{why}: the character after the last is the terminator")
        m.get = lambda s, i, b=b: e.fm_read(s, b.comp("i8"), (i,), None)
        return m
    def same(self, st, m, n, want, why):
        T = self.T
        T.must(st, Eq(m.n, n), f"{why}: size")
        T.all(st, 0, n, lambda s, i: Eq(m.get(s, i), want(i)), f"{why}: character i has the specified value")
    def unchanged(self, st, v, why="string unchanged"):
        m = self.read(st, v.p, why); self.same(st, m, v.n, v.S, why)
        self.T.must(st, And(Eq(m.cap, v.cap), m.buf == v.buf), why + ": storage")
        return m
def setup(T):
    T.done_externs()
    return Str(T)
def cstr(T, name="c"):
    """a terminated C string of length L"""
    m = Model(); m.n = T.int(name + "_len"); T.assume(Lt(m.n, lib.MAXSZ))
    o = T.struct(name, Add(m.n, 1)); o.dtype = "i8"; f = FFun(name + "_C", z3.IntSort(), z3.IntSort())
    base = bytes_of(T, f, lambda k: InRange(0, k, Add(m.n, 1)))
    o.comps["i8"] = FM.base(base).pt((m.n,), 0); o.const = True
    T.e.axiom(z3.And(f(m.n) >= 0))
    havoc.forall(T.e, T.st, 0, m.n, lambda q: Ne(f(zi(q)), 0))
    T.st.ghost["nuls"] = T.st.ghost.get("nuls", ()) + ((o.id, m.n),)
    def rd(i):
        base((i,)); return f(zi(i))
    m.p = Ptr(o.id, 0); m.S = rd; m.obj = o.id
    return m
def chars(T, name="s"):
    """n arbitrary characters, zero characters included"""
    m = Model(); m.n = T.int(name + "_count"); T.assume(Lt(m.n, lib.MAXSZ))
    o = T.struct(name, m.n); o.dtype = "i8"; f = FFun(name + "_C", z3.IntSort(), z3.IntSort())
    base = bytes_of(T, f, lambda k: InRange(0, k, m.n)); o.comps["i8"] = FM.base(base); o.const = True
    def rd(i):
        base((i,)); return f(zi(i))
    m.p = Ptr(o.id, 0); m.S = rd; m.obj = o.id
    return m
