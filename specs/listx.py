"""Contracts of cest::list over the sequence model (n, S) with the ghost node sequence N."""
from spec import *
from nodes import *
HARNESS = "list"
DEF = z3.Int("DEFAULT_E")
class Rep(SeqRep):
    """A list of n elements is a ring through its own header and n distinct live heap nodes N(0..n), doubly linked in
    order; node i holds S(i); size == n; no other node is owned."""
    push_back = r"cest::list<E, std::allocator<E>>::push_back\(E( const&|&&)\)"
    size = r"cest::list<E, std::allocator<E>>::size\(\) const"
    dtor = r"cest::list<E, std::allocator<E>>::~list\(\)"
    def __init__(self, T):
        self.T = T; T.sz, T.onode, T.osize, T.nsz, T.onx, T.opv, T.oval = [T.cval(x) for x in ("L_sizeof", "L_off_node", "L_off_size", "N_sizeof", "N_off_next", "N_off_prev", "N_off_val")]
        if T.onode: raise Unsupported("list header is not at offset 0")
        self.lists = {}
    def make(self, name, empty=False):
        T = self.T; m = Model(); o = T.struct(name, T.sz); m.p = Ptr(o.id, 0); m.n = T.int(name + "_n"); T.assume(Lt(m.n, lib.MAXSZ // 4))
        f = FFun(name + "_S", I_, I_); m.S = lambda i: f(zi(i)); m.fam = name + ".nodes"
        m.q = NSeq(T, m.fam, m.n, T.nsz, o.id, o.id, {T.onx: 1, T.opv: -1}, {T.oval: m.S})
        T.set_cell(o, T.osize, "i64", m.n); T.set_cell(o, T.onx, "p", Ptr(m.q.at(0), 0)); T.set_cell(o, T.opv, "p", Ptr(m.q.at(Sub(m.n, 1)), 0))
        self.lists[o.id] = m; T.e.reps[o.id] = self; m.segs = [(m.n, m.q.at, m.S)]; return m
    def fresh(self, name):
        o = self.T.struct(name, self.T.sz); self.T.e.reps[o.id] = self; return Ptr(o.id, 0)
    def read(self, st, p, why="result"):
        """abstract value of a list that is empty or folded"""
        T = self.T
        if self.folded(st, p.obj): return self.model(st, p.obj)
        m = Model(); m.p = p; m.buf = None; m.n = 0; m.S = lambda i: z3.IntVal(-1)
        nx, pv = T.cell(st, p, T.onx, "p"), T.cell(st, p, T.opv, "p")
        T.must(st, PEq(nx, p), why + ": empty list's header links to itself"); T.must(st, PEq(pv, p), why + ": empty list's header links to itself"); T.must(st, Eq(T.cell(st, p, T.osize, "i64"), 0), why + ": size"); return m
    def unfold(self, st, id): raise Unsupported("list known only through its model is accessed directly")
    def check(self, st, m, segs, why, live=None):
        """the list is the concatenation of the given segments (length, node, value); live(id): position of an owned node"""
        T = self.T; e = T.e; L = m.p.obj; n = 0; ends = []
        for ln, _, _ in segs: ends.append((n, Add(n, ln))); n = Add(n, ln)
        def node(j):
            r = L
            for (lo, hi), (ln, f, g) in reversed(list(zip(ends, segs))): r = If(InRange(lo, j, hi), f(Sub(j, lo)), r)
            return r
        T.must(st, Eq(T.cell(st, m.p, T.osize, "i64"), n), why + ": size")
        for o, j in ((T.onx, 0), (T.opv, Sub(n, 1))):
            c = T.cell(st, m.p, o, "p"); T.must(st, And(Eq(c.obj, node(j)), Eq(c.off, 0)), why + ": header links to the first and last node")
        for (lo, hi), (ln, f, g) in zip(ends, segs):
            s = st.copy(); j = FInt("j")
            try: e.assume(s, InRange(lo, j, hi))
            except Dead: continue
            if not e.feasible(s): continue
            def one(s):
                id = f(Sub(j, lo)); r = e.resolve(s, Ptr(id, 0), T.nsz, "post: " + why + ": node"); fam, key = (r[1], (r[2],)) if r[0] == "f" else (r[1], ())
                rd = lambda c, off: e.fm_read(s, fam.comp(c), key + (off,), None)
                if r[0] == "o": T.must(s, fam.heap, why + ": node is heap memory"); T.must(s, Eq(fam.size, T.nsz), why + ": node size")
                T.must(s, And(Eq(rd("po", T.onx), node(Add(j, 1))), Eq(rd("pp", T.onx), 0)), why + ": node links to the next position"); T.must(s, And(Eq(rd("po", T.opv), node(Sub(j, 1))), Eq(rd("pp", T.opv), 0)), why + ": node links to the previous position")
                T.must(s, rd("alive", T.oval), why + ": element is alive"); T.must(s, Eq(rd("val", T.oval), g(Sub(j, lo))), why + ": element i has the specified value")
            T.each(s, one)
        # every live node is one of these
        s = st.copy(); id = FInt("id"); fm = s.fams[m.fam]; lv = e.fm_read(s, fm.live, (id,), None)
        x = m.q.X(id); inv = live(x) if live else x
        T.must(s, Implies(lv, And(InRange(0, inv, n), Eq(node(inv), id))), why + ": every other node is released (no leak)")
        s = st.copy(); id = FInt("id"); off = FInt("off"); fm = s.fams[m.fam]; al = e.fm_read(s, fm.comp("alive"), (id, off), None); lv = e.fm_read(s, fm.live, (id,), None)
        T.must(s, Implies(al, And(lv, Eq(off, T.oval))), why + ": live elements lie in live nodes")
def setup(T, contracts=False):
    lib.install_elem(T.e, "E", 1, DEF); T.done_externs(); R = Rep(T)
    if contracts: R.contracts(T.e)
    return R
def new_nodes(T, st): return [i for i, o in st.mem.items() if o.heap and o.live]
def pos_split(m, i, mid):
    """segments of the old list around position i"""
    return [(i, m.q.at, m.S)] + mid + [(Sub(m.n, i), lambda j: m.q.at(Add(j, i)), lambda j: m.S(Add(j, i)))]
P = "C07"
def elemarg(T, R, l, own):
    """an argument element: a separate object, or one of the list's own"""
    if not own: return T.elem("x")
    a = T.int("own"); T.assume(Lt(a, l.n)); return Ptr(l.q.at(a), T.oval), l.S(a)
def where(T, l, w):
    if w == "back": return l.n
    if w == "front": return 0
    i = T.int("i"); T.assume(Le(i, l.n)); return i
# ---- insertion
for fn, w, mv, ret in (("l_push_back", "back", 0, ""), ("l_push_back_m", "back", 1, ""), ("l_push_front", "front", 0, ""), ("l_push_front_m", "front", 1, ""), ("l_emplace_back", "back", 0, "e"), ("l_emplace_front", "front", 0, "e"), ("l_insert", "at", 0, "it"), ("l_insert_m", "at", 1, "it"), ("l_emplace", "at", 0, "it")):
    for own in (0, 1):
        if own and mv: continue
        @task(P, f"{fn}[{'own element' if own else 'other element'}]")
        def t(T, fn=fn, w=w, mv=mv, ret=ret, own=own):
            R = setup(T); l = R.make("l"); x, v = elemarg(T, R, l, own); i = where(T, l, w)
            def post(st, r):
                new = new_nodes(T, st); T.must(st, len(new) == 1, "one node is allocated")
                H = new[0]
                R.check(st, l, pos_split(l, i, [(1, lambda j: H, lambda j: v)]), fn, lambda x: If(Lt(x, i), x, Add(x, 1)))
                if ret == "it": T.must(st, PEq(r, Ptr(H, 0)), "returns an iterator to the new element")
                if ret == "e": T.must(st, PEq(r, Ptr(H, T.oval)), "returns a reference to the new element")
                if not own: T.must(st, T.elem_alive(st, x), "argument stays alive"); T.must(st, True if mv else Eq(T.elem_val(st, x), v), "argument unchanged")
            T.post(T.call(fn, l.p, *([Ptr(l.q.at(i), 0)] if w == "at" else []), x), post)
# ---- erasure
for fn, w in (("l_erase", "at"), ("l_pop_back", "back"), ("l_pop_front", "front")):
    @task(P, fn)
    def t(T, fn=fn, w=w):
        R = setup(T); l = R.make("l"); T.assume(Lt(0, l.n)); i = T.int("i") if w == "at" else Sub(l.n, 1) if w == "back" else 0; T.assume(Lt(i, l.n))
        def post(st, r):
            R.check(st, l, [(i, l.q.at, l.S), (Sub(Sub(l.n, i), 1), lambda j: l.q.at(Add(Add(j, i), 1)), lambda j: l.S(Add(Add(j, i), 1)))], fn, lambda x: If(Lt(x, i), x, Sub(x, 1)))
            if w == "at": T.must(st, PEq(r, Ptr(l.q.at(Add(i, 1)), 0)), "returns an iterator to the element after the erased one")
            T.frame(st, [])
        T.post(T.call(fn, l.p, *([Ptr(l.q.at(i), 0)] if w == "at" else [])), post)
# ---- whole-list operations
def gone(T, R, st, m, why): 
    s = st.copy(); id = FInt("id"); T.must(s, Not(T.e.fm_read(s, s.fams[m.fam].live, (id,), None)), why + ": every node is released")
@task(P)
def l_ctor(T):
    R = setup(T); p = R.fresh("l"); T.post(T.call("l_ctor", p), lambda st, r: (R.read(st, p), T.frame(st, [])))
@task(P)
def l_clear(T):
    R = setup(T); l = R.make("l"); T.post(T.call("l_clear", l.p), lambda st, r: (R.read(st, l.p, "cleared"), gone(T, R, st, l, "clear"), T.frame(st, [])))
@task(P)
def l_dtor(T):
    R = setup(T); l = R.make("l"); T.post(T.call("l_dtor", l.p), lambda st, r: (gone(T, R, st, l, "destructor"), T.frame(st, [])))
def same(T, R, st, p, src, why):
    m = R.read(st, p, why); T.must(st, Eq(m.n, src.n), why + ": size")
    if m.folded: T.all(st, 0, src.n, lambda s, i: Eq(T.e.fm_read(s, s.mem[p.obj].comps["aval"], (i,), None), src.S(i)), why + ": element i has the specified value")
def keep(T, R, st, m, why): R.check(st, m, m.segs, why)
for fn in ("l_ctor_copy", "l_ctor_move"):
    @task(P, fn)
    def t(T, fn=fn):
        R = setup(T, True); s = R.make("src"); p = R.fresh("l")
        def post(st, r): same(T, R, st, p, s, "copy"); (keep(T, R, st, s, "source unchanged") if fn == "l_ctor_copy" else 0); T.frame(st, [])
        T.post(T.call(fn, p, s.p), post)
@task(P)
def l_assign(T):
    R = setup(T, True); s = R.make("src"); l = R.make("l")
    T.post(T.call("l_assign", l.p, s.p), lambda st, r: (same(T, R, st, l.p, s, "assignment"), keep(T, R, st, s, "source unchanged"), gone(T, R, st, l, "old contents"), T.must(st, PEq(r, l.p), "returns the list"), T.frame(st, [])))
@task(P)
def l_assign_self(T):
    R = setup(T); l = R.make("l"); T.post(T.call("l_assign", l.p, l.p), lambda st, r: (keep(T, R, st, l, "self-assignment"), T.must(st, PEq(r, l.p), "returns the list"), T.frame(st, [])))
# ---- observers
def obs(fn, f, pre=None):
    @task(P, fn)
    def t(T):
        R = setup(T); l = R.make("l")
        if pre: T.assume(pre(l))
        T.post(T.call(fn, l.p), lambda st, r: (T.must(st, (PEq(r, f(T, l)) if isinstance(f(T, l), Ptr) else Eq(r, f(T, l)) if z3.is_int(f(T, l)) else zb(r) == zb(f(T, l))), fn + " result"), keep(T, R, st, l, "unchanged"), T.frame(st, [], [l.p.obj])))
ne = lambda l: Lt(0, l.n)
for f in ("l_front", "l_cfront"): obs(f, lambda T, l: Ptr(l.q.at(0), T.oval), ne)
for f in ("l_back", "l_cback"): obs(f, lambda T, l: Ptr(l.q.at(Sub(l.n, 1)), T.oval), ne)
for f in ("l_begin", "l_begin_c", "l_cbegin"): obs(f, lambda T, l: Ptr(l.q.at(0), 0))
for f in ("l_end", "l_end_c", "l_cend"): obs(f, lambda T, l: Ptr(l.p.obj, 0))
obs("l_empty", lambda T, l: Eq(l.n, 0)); obs("l_size", lambda T, l: l.n)
# ---- iterators
def itr(T, l, i, nm="it"):
    o = T.struct(nm, 8); T.set_cell(o, 0, "p", Ptr(l.q.at(i), 0)); return Ptr(o.id, 0)
for pre in ("it", "ci"):
    for op, lo, d in (("deref", 0, 0), ("arrow", 0, 0), ("pre", 0, 1), ("post", 0, 1), ("predec", 1, -1), ("postdec", 1, -1)):
        @task(P, f"{pre}_{op}")
        def t(T, pre=pre, op=op, lo=lo, d=d):
            R = setup(T); l = R.make("l"); i = T.int("i"); T.assume(And(Le(lo, i), Le(i, l.n) if d < 0 else Lt(i, l.n))); a = itr(T, l, i)
            def post(st, r):
                T.must(st, PEq(T.cell(st, a, 0, "p"), Ptr(l.q.at(Add(i, d)), 0)), "moves by one position" if d else "does not move")
                T.must(st, PEq(r, Ptr(l.q.at(i), T.oval) if not d else a if op.startswith("pre") else Ptr(l.q.at(i), 0)), "returns the element" if not d else "returns the iterator" if op.startswith("pre") else "returns the old position")
                keep(T, R, st, l, "list unchanged"); T.frame(st, [])
            T.post(T.call(f"{pre}_{op}", a), post)
    for op in ("eq", "ne"):
        @task(P, f"{pre}_{op}")
        def t(T, pre=pre, op=op):
            R = setup(T); l = R.make("l"); i, j = T.int("i"), T.int("j"); T.assume(And(Le(i, l.n), Le(j, l.n))); a, b = itr(T, l, i), itr(T, l, j, "jt")
            T.post(T.call(f"{pre}_{op}", a, b), lambda st, r: T.must(st, zb(r) == zb(Eq(i, j) if op == "eq" else Ne(i, j)), "iterators are equal exactly when they denote the same position"))
@task(P)
def ci_of(T):
    R = setup(T); l = R.make("l"); i = T.int("i"); T.assume(Le(i, l.n)); p = Ptr(l.q.at(i), 0); T.post(T.call("ci_of", p), lambda st, r: T.must(st, PEq(r, p), "conversion keeps the position"))
# ---- failing allocations (C25)
NOST = " when storage cannot be obtained"
for fn, w, mv in (("l_push_back", "back", 0), ("l_push_back_m", "back", 1), ("l_push_front", "front", 0), ("l_push_front_m", "front", 1), ("l_emplace_back", "back", 0), ("l_emplace_front", "front", 0), ("l_insert", "at", 0), ("l_insert_m", "at", 1), ("l_emplace", "at", 0)):
    for own in (0, 1):
        if own and mv: continue
        @task("C25", f"{fn}[{'own element' if own else 'other element'}]" + NOST)
        def t(T, fn=fn, w=w, own=own):
            R = setup(T); l = R.make("l"); x, v = elemarg(T, R, l, own); i = where(T, l, w)
            def chk(st):
                keep(T, R, st, l, "after the failure"); T.frame(st, [])
                if not own: T.must(st, T.elem_alive(st, x), "argument stays alive"); T.must(st, Eq(T.elem_val(st, x), v), "argument unchanged")
            T.fails(fn, [l.p] + ([Ptr(l.q.at(i), 0)] if w == "at" else []) + [x], chk)
for fn in ("l_ctor_copy", "l_ctor_move"):
    @task("C25", fn + NOST)
    def t(T, fn=fn):
        R = setup(T, True); s = R.make("src"); p = R.fresh("l")
        T.fails(fn, [p, s.p], lambda st: (keep(T, R, st, s, "source unchanged"), T.frame(st, [])), [p])
@task("C25", "l_assign" + NOST)
def t(T):
    R = setup(T, True); s = R.make("src"); l = R.make("l")
    def chk(st):
        m = R.read(st, l.p, "after the failure"); T.must(st, Le(m.n, s.n), "no more elements than the source")
        if m.folded: T.all(st, 0, m.n, lambda s1, i: Eq(T.e.fm_read(s1, s1.mem[l.p.obj].comps["aval"], (i,), None), s.S(i)), "after the failure: the elements assigned so far")
        keep(T, R, st, s, "source unchanged"); gone(T, R, st, l, "old contents"); T.frame(st, [])
    T.fails("l_assign", [l.p, s.p], chk)
