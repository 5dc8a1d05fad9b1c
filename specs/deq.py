"""Contracts of cest::deque over the sequence model (n, S): the elements are positions F..F+n of an array of nc chunks."""
from spec import *
from nodes import *
HARNESS = "deque"
DEF = z3.Int("DEFAULT_E"); M64 = 1 << 64
def lin(x):
    """linear combination {term: coefficient} of an integer term (constant under key None)"""
    if isc(x): return {None: x}
    r = {}
    def go(t, c):
        if z3.is_int_value(t): r[None] = r.get(None, (0, 0))[0] + c * t.as_long(), None
        elif z3.is_add(t): [go(a, c) for a in t.children()]
        elif z3.is_sub(t): go(t.arg(0), c); [go(a, -c) for a in t.children()[1:]]
        elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.num_args() == 2: go(t.arg(1), c * t.arg(0).as_long())
        else: r[t.get_id()] = (r.get(t.get_id(), (0, t))[0] + c, t)
    go(x, 1); return r
def xdiv(x, c):
    """x / c, simplified when every coefficient is a multiple of c"""
    if isc(x): return x // c
    l = lin(S(x))
    if all(k % c == 0 for k, _ in l.values()):
        r = 0
        for k, t in l.values(): r = Add(r, k // c if t is None else Mul(k // c, t))
        return r
    return Div(x, c)
class DSeq(NSeq):
    """chunks of a deque: NSeq of nc blocks whose elements are the positions [F, F+n)"""
    def __init__(self, T, name, nc, C, F, n, S):
        super().__init__(T, name, nc, C, 0, 0, {}, {}); self.C = C; f = T.st.fams[name]; self.F = F
        self.P = lambda id, off: Add(Mul(C, self.X(zi(id))), off)
        f.comps["alive"] = FM.base(lambda key: And(self.IN(key[0]), InRange(0, key[1], C), InRange(F, self.P(*key), Add(F, n))))
        f.comps["val"] = FM.base(lambda key: S(Sub(self.P(*key), F)))
    def invert2(self, e, wkey, k):
        """element addresses visited in index order: iteration from the position"""
        if len(wkey) != 2 or isc(wkey[0]) or not (z3.is_app(wkey[0]) and wkey[0].decl().eq(self.N)): return None
        pos = lambda j: Add(Mul(self.C, subst(wkey[0].arg(0), [(k, zi(j))])), subst(wkey[1], [(k, zi(j))]))
        p0 = pos(0); up = 1; todo = [wkey[0].arg(0), wkey[1]]
        while todo:   # the direction: the position is C*((c + dk)/C) + (c + dk)%C
            t = todo.pop()
            if z3.is_mod(t) or z3.is_idiv(t): up = S(Sub(subst(t.arg(0), [(k, zi(1))]), subst(t.arg(0), [(k, zi(0))]))); break
            todo += t.children()
        def inv(key):
            j = Sub(p0, self.P(*key)) if isc(up) and up == -1 else Sub(self.P(*key), p0); return j, And(self.IN(key[0]), InRange(0, key[1], self.C), Eq(self.X(zi(key[0])), subst(wkey[0].arg(0), [(k, zi(j))])), Eq(key[1], subst(wkey[1], [(k, zi(j))])))
        return inv
class Rep(SeqRep):
    """A deque of n elements: nc >= 1 distinct live heap chunks CH(0..nc) of C element slots, listed in m_chunks; element i
    lies at slot F+i counted over all chunks, F = fc*C + front; the end position F+n lies in an existing chunk; m_back and
    m_back_chunk denote the slot before the end position; no other slot holds a live element."""
    push_back = r"cest::deque<E, std::allocator<E>>::push_back\(E( const&|&&)\)"
    size = r"cest::deque<E, std::allocator<E>>::size\(\) const"
    dtor = r"cest::deque<E, std::allocator<E>>::~deque\(\)"
    def __init__(self, T):
        self.T = T; self.K = {x: T.cval(x) for x in ("D_sizeof", "D_front", "D_back", "D_fc", "D_bc", "D_size", "D_vec", "V_size", "V_cap", "V_p", "CH_SZ", "I_sizeof", "I_p", "I_pp", "CI_p", "CI_pp")}; self.C = self.K["CH_SZ"]; self.models = {}
    def offs(self): k = self.K; return dict(front=k["D_front"], back=k["D_back"], fc=k["D_fc"], bc=k["D_bc"], size=k["D_size"], nc=k["D_vec"] + k["V_size"], cap=k["D_vec"] + k["V_cap"]), k["D_vec"] + k["V_p"]
    def split(self, st, x):
        """(q, r) with x = C*q + r, 0 <= r < C"""
        q, r = FInt("q"), FInt("r"); self.T.e.assume(st, And(Eq(x, Add(Mul(self.C, q), r)), InRange(0, r, self.C))); return q, r
    def back(self, ec, eo): return If(Eq(eo, 0), self.C - 1, Sub(eo, 1)), If(Eq(eo, 0), If(Eq(ec, 0), M64 - 1, Sub(ec, 1)), ec)
    def make(self, name):
        T = self.T; C = self.C; m = Model(); o = T.struct(name, self.K["D_sizeof"]); m.p = Ptr(o.id, 0)
        m.f, m.fc, m.nc, m.cap, m.n = [T.int(name + "_" + x) for x in ("front", "fc", "nc", "cap", "n")]
        T.assume(And(Lt(m.f, C), Lt(m.nc, 1 << 40), Le(m.nc, m.cap), Lt(0, m.cap), Lt(m.cap, 1 << 42))); q, r = self.split(T.st, Add(m.f, m.n)); m.ec = Add(m.fc, q); m.eo = r; T.assume(Lt(m.ec, m.nc))
        b, bc = self.back(m.ec, m.eo); m.F = Add(Mul(C, m.fc), m.f); g = FFun(name + "_S", I_, I_); m.S = lambda i: g(zi(i))
        m.fam = name + ".chunks"; m.q = DSeq(T, m.fam, m.nc, C, m.F, m.n, m.S)
        bo = T.e.new_obj(T.st, name + ".chunk array", Mul(8, m.cap), heap=True); m.buf = bo.id; bo.dtype = "p"
        bo.comps["po"] = FM.base(lambda key: ("INIT", And(InRange(0, key[0], Mul(8, m.nc)), Eq(Mod(key[0], 8), 0)), m.q.at(xdiv(key[0], 8)))); bo.comps["pp"] = FM.base(lambda key: ("INIT", And(InRange(0, key[0], Mul(8, m.nc)), Eq(Mod(key[0], 8), 0)), z3.IntVal(0)))
        O, vp = self.offs()
        for x, v in dict(front=m.f, back=b, fc=m.fc, bc=bc, size=m.n, nc=m.nc, cap=m.cap).items(): T.set_cell(o, O[x], "i64", v)
        T.set_cell(o, vp, "p", Ptr(bo.id, 0)); self.models[o.id] = m; T.e.reps[o.id] = self; return m
    def fresh(self, name): o = self.T.struct(name, self.K["D_sizeof"]); self.T.e.reps[o.id] = self; return Ptr(o.id, 0)
    def unfold(self, st, id): raise Unsupported("deque known only through its model is accessed directly")
    def state(self, st, p):
        T = self.T; O, vp = self.offs(); d = Model()
        for x, o in O.items(): setattr(d, x, T.cell(st, p, o, "i64"))
        v = T.cell(st, p, vp, "p"); obj = S(v.obj) if not isc(v.obj) else v.obj
        if not isc(obj):
            cs = [i for i in list(st.mem) + [0] if T.e.feasible(st, Eq(obj, i))]
            if len(cs) != 1: raise Fork([Eq(obj, i) for i in cs])
            obj = cs[0]
        d.vp = Ptr(obj, v.off); return d
    def chunks(self, st, p, d):
        """segments (length, node) of the chunk array, and the chunk objects newly allocated"""
        T = self.T; e = T.e; new = [i for i, o in st.mem.items() if o.heap and o.live and i not in T.st.mem and i != d.vp.obj and Eq(o.size, self.C) is True]
        m = self.models.get(p.obj); segs = [(m.nc, m.q.at)] if m and m.fam in st.fams else []
        for h in new:
            first = e.fm_read(st, st.mem[d.vp.obj].comp("po"), (0,), None)
            if e.entailed(st, Eq(first, h)): segs.insert(0, (1, lambda j, h=h: h))
            else: segs.append((1, lambda j, h=h: h))
        return segs, new
    def check(self, st, p, n, S_, why, must=None):
        """the deque at p represents the sequence (n, S)"""
        T = self.T; e = T.e; C = self.C; must = must or T.must; d = self.state(st, p); m = self.models.get(p.obj); segs, new = self.chunks(st, p, d); nc = 0; ends = []
        for ln, _ in segs: ends.append((nc, Add(nc, ln))); nc = Add(nc, ln)
        def node(j):
            r = 0
            for (lo, hi), (ln, f) in reversed(list(zip(ends, segs))): r = If(InRange(lo, j, hi), f(Sub(j, lo)), r)
            return r
        must(st, Eq(d.size, n), why + ": size"); must(st, Eq(d.nc, nc), why + ": the chunk array lists every chunk"); must(st, Le(d.nc, d.cap), why + ": chunk array")
        must(st, d.vp.obj != 0, why + ": chunk array")
        b = st.mem[d.vp.obj]; must(st, And(b.live and b.heap, Eq(d.vp.off, 0), Eq(b.size, Mul(8, d.cap))), why + ": chunk array is live heap memory of its capacity")
        q, r = self.split(st, Add(d.front, n)); ec = Add(d.fc, q)
        must(st, Lt(d.front, C), why + ": front slot"); must(st, Lt(ec, d.nc), why + ": end position lies in an existing chunk"); bk, bc = self.back(ec, r); must(st, And(Eq(d.back, bk), Eq(d.bc, bc)), why + ": back slot is the one before the end position")
        for (lo, hi), (ln, f) in zip(ends, segs):
            s = st.copy(); j = FInt("j")
            try: e.assume(s, InRange(lo, j, hi))
            except Dead: continue
            if not e.feasible(s): continue
            def one(s):
                pv = Ptr(e.fm_read(s, s.mem[d.vp.obj].comp("po"), (Mul(8, j),), None), e.fm_read(s, s.mem[d.vp.obj].comp("pp"), (Mul(8, j),), None))
                must(s, PEq(pv, Ptr(f(Sub(j, lo)), 0)), why + ": chunk array entry"); e.resolve(s, Ptr(f(Sub(j, lo)), 0), C, "post: " + why + ": chunk is live")
            T.each(s, one)
        s = st.copy(); j = FInt("i"); ok = True
        try: e.assume(s, InRange(0, j, n))
        except Dead: ok = False
        if ok and e.feasible(s):
            q, r = self.split(s, Add(d.front, j))
            def one(s):
                x = e.resolve(s, Ptr(node(Add(d.fc, q)), r), 1, "post: " + why + ": element"); fam, key = (x[1], (x[2],)) if x[0] == "f" else (x[1], ())
                must(s, e.fm_read(s, fam.comp("alive"), key + (r,), None), why + ": element is alive"); must(s, Eq(e.fm_read(s, fam.comp("val"), key + (r,), None), S_(j)), why + ": element i has the specified value")
            T.each(s, one)
        F = Add(Mul(C, d.fc), d.front)
        for (lo, hi), (ln, f) in zip(ends, segs):
            if m and f == m.q.at:
                s = st.copy(); id, off = FInt("id"), FInt("off"); al = e.fm_read(s, s.fams[m.fam].comp("alive"), (id, off), None)
                must(s, Implies(al, And(InRange(0, off, C), InRange(F, Add(Mul(C, Add(m.q.X(id), lo)), off), Add(F, n)))), why + ": no other slot holds a live element")
                s = st.copy(); id = FInt("id"); must(s, Implies(m.q.IN(id), e.fm_read(s, s.fams[m.fam].live, (id,), None)), why + ": every listed chunk is live")
            else:
                s = st.copy(); off = FInt("off"); al = e.fm_read(s, s.mem[f(0)].comp("alive"), (off,), None)
                must(s, Implies(al, And(InRange(0, off, C), InRange(F, Add(Mul(C, lo), off), Add(F, n)))), why + ": no other slot holds a live element")
        T.frame(st, [d.vp.obj] + new); return d, node
    def read(self, st, p, why="result"):
        """abstract value; only an empty deque can be abstracted (before a loop of push_back)"""
        if self.folded(st, p.obj): return self.model(st, p.obj)
        m = Model(); m.p = p; m.n = 0; m.S = lambda i: z3.IntVal(-1); m.buf = None; s = st.copy(); d = self.state(s, p); fr = self.T.frame; self.T.frame = lambda *a: None
        try: self.check(s, p, 0, m.S, why)
        finally: self.T.frame = fr
        segs, new = self.chunks(st, p, d); m.own = [d.vp.obj] + new; return m
    def owned(self, m): return m.own
    def seq_map(self, st, m): return FM.base()
    def extra_fold(self, st, m):
        x = self.models.get(m.p.obj)
        if x and x.fam in st.fams: del st.fams[x.fam]
def setup(T, contracts=False):
    lib.install_elem(T.e, "E", 1, DEF); T.done_externs(); R = Rep(T)
    if contracts: R.contracts(T.e)
    return R
P5, P6, P56 = "C05", "C06", ["C05", "C06"]
def elemarg(T, R, l, own):
    if not own: return T.elem("x")
    a = T.int("own"); T.assume(Lt(a, l.n)); q, r = R.split(T.st, Add(l.f, a)); return Ptr(l.q.at(Add(l.fc, q)), r), l.S(a)
for fn, back, mv in (("d_push_back", 1, 0), ("d_push_back_m", 1, 1), ("d_push_front", 0, 0), ("d_push_front_m", 0, 1)):
    for own in (0, 1):
        if own and mv: continue
        @task(P56, f"{fn}[{'own element' if own else 'other element'}]")
        def t(T, fn=fn, back=back, mv=mv, own=own):
            R = setup(T); l = R.make("d"); x, v = elemarg(T, R, l, own)
            S1 = (lambda i: If(Eq(i, l.n), v, l.S(i))) if back else (lambda i: If(Eq(i, 0), v, l.S(Sub(i, 1))))
            def post(st, r):
                R.check(st, l.p, Add(l.n, 1), S1, fn)
                if not own: T.must(st, T.elem_alive(st, x), "argument stays alive"); T.must(st, True if mv else Eq(T.elem_val(st, x), v), "argument unchanged")
            T.post(T.call(fn, l.p, x), post)
for fn, back in (("d_pop_back", 1), ("d_pop_front", 0)):
    @task(P56, fn)
    def t(T, fn=fn, back=back):
        R = setup(T); l = R.make("d"); T.assume(Lt(0, l.n)); T.post(T.call(fn, l.p), lambda st, r: R.check(st, l.p, Sub(l.n, 1), l.S if back else lambda i: l.S(Add(i, 1)), fn))
    @task(P56, fn + "[empty]")
    def t(T, fn=fn): R = setup(T); l = R.make("d"); T.assume(Eq(0, l.n)); T.post(T.call(fn, l.p), lambda st, r: (R.check(st, l.p, 0, l.S, fn), T.frame(st, [l.buf], [l.p.obj])))
@task(P56)
def d_ctor(T): R = setup(T); p = R.fresh("d"); T.post(T.call("d_ctor", p), lambda st, r: R.check(st, p, 0, lambda i: -1, "default constructor"))
@task(P56)
def d_clear(T): R = setup(T); l = R.make("d"); T.post(T.call("d_clear", l.p), lambda st, r: R.check(st, l.p, 0, l.S, "clear"))
@task(P5)
def d_dtor(T):
    R = setup(T); l = R.make("d")
    def post(st, r):
        s = st.copy(); T.must(s, Not(T.e.fm_read(s, s.fams[l.fam].live, (FInt("id"),), None)), "destructor: every chunk is released"); s = st.copy(); T.must(s, Not(T.e.fm_read(s, s.fams[l.fam].comp("alive"), (FInt("id"), FInt("off")), None)), "destructor: every element is destroyed"); T.frame(st, [])
    T.post(T.call("d_dtor", l.p), post)
def same(T, R, st, p, n, S_, why):
    if not R.folded(st, p.obj): R.check(st, p, n, S_, why); return
    m = R.model(st, p.obj); T.must(st, Eq(m.n, n), why + ": size"); T.all(st, 0, n, lambda s, i: Eq(T.e.fm_read(s, s.mem[p.obj].comps["aval"], (i,), None), S_(i)), why + ": element i has the specified value")
def keep(T, R, st, m, why): fr = T.frame; T.frame = lambda *a: None; R.check(st, m.p, m.n, m.S, why); T.frame = fr
for fn in ("d_ctor_copy", "d_ctor_move"):
    @task(P56, fn)
    def t(T, fn=fn): R = setup(T, True); s = R.make("src"); p = R.fresh("d"); T.post(T.call(fn, p, s.p), lambda st, r: (same(T, R, st, p, s.n, s.S, "copy"), keep(T, R, st, s, "source unchanged"), T.frame(st, [s.buf])))
@task(P56)
def d_ctor_il(T):
    R = setup(T, True); p = R.fresh("d"); n = T.int("n"); T.assume(Le(n, lib.MAXSZ)); a = T.struct("init", n); f = FFun("init_S", I_, I_)
    a.comps["alive"] = FM.base(lambda key: InRange(0, key[0], n)); a.comps["val"] = FM.base(lambda key: f(zi(key[0])))
    T.post(T.call("d_ctor_il", p, Ptr(a.id, 0), n), lambda st, r: (same(T, R, st, p, n, lambda i: f(zi(i)), "initialiser list"), T.frame(st, [], [a.id])))
@task(P56)
def d_assign(T): R = setup(T, True); s = R.make("src"); l = R.make("d"); T.post(T.call("d_assign", l.p, s.p), lambda st, r: (same(T, R, st, l.p, s.n, s.S, "assignment"), keep(T, R, st, s, "source unchanged"), T.must(st, PEq(r, l.p), "returns the deque"), T.frame(st, [s.buf, l.buf])))
@task(P56)
def d_assign_self(T): R = setup(T); l = R.make("d"); T.post(T.call("d_assign", l.p, l.p), lambda st, r: (keep(T, R, st, l, "self-assignment"), T.must(st, PEq(r, l.p), "returns the deque"), T.frame(st, [l.buf])))
# ---- observers
def slot(T, R, st, l, i): q, r = R.split(st, Add(l.f, i)); return Ptr(l.q.at(Add(l.fc, q)), r), Ptr(l.buf, Mul(8, Add(l.fc, q)))
def obs(P, fn, f, pre=None, arg=False):
    @task(P, fn)
    def t(T):
        R = setup(T); l = R.make("d"); i = T.int("i") if arg else None
        if arg: T.assume(Lt(i, l.n))
        if pre: T.assume(pre(l))
        def post(st, r):
            w = f(T, R, st, l, i)
            for g in ([PEq(a, b) for a, b in zip(r, w)] if isinstance(w, tuple) else [PEq(r, w) if isinstance(w, Ptr) else Eq(r, w) if z3.is_int(w) else zb(r) == zb(w)]): T.must(st, g, fn + " result")
            T.frame(st, [l.buf], [l.p.obj, l.buf])
            for c in ("alive", "val"):
                if st.fams[l.fam].comp(c) is not T.st.fams[l.fam].comp(c): T.must(st, False, "elements unchanged")
        T.post(T.call(fn, l.p, *([i] if arg else [])), post)
ne = lambda l: Lt(0, l.n)
for f in ("d_front", "d_cfront"): obs(P5, f, lambda T, R, st, l, i: slot(T, R, st, l, 0)[0], ne)
for f in ("d_back", "d_cback"): obs(P5, f, lambda T, R, st, l, i: slot(T, R, st, l, Sub(l.n, 1))[0], ne)
for f in ("d_at", "d_cat"): obs(P56, f, lambda T, R, st, l, i: slot(T, R, st, l, i)[0], arg=True)
obs(P5, "d_empty", lambda T, R, st, l, i: Eq(l.n, 0)); obs(P56, "d_size", lambda T, R, st, l, i: l.n)
for f in ("d_begin", "d_begin_c", "d_cbegin"): obs(P6, f, lambda T, R, st, l, i: slot(T, R, st, l, 0))
for f in ("d_end", "d_end_c", "d_cend"): obs(P6, f, lambda T, R, st, l, i: slot(T, R, st, l, l.n))
# ---- iterators: position i in [0, n]
def itr(T, R, l, i, pre, nm="it"):
    a, b = slot(T, R, T.st, l, i); o = T.struct(nm, R.K["I_sizeof"]); k = "C" * (pre == "ci"); T.set_cell(o, R.K[k + "I_p"], "p", a); T.set_cell(o, R.K[k + "I_pp"], "p", b); return Ptr(o.id, 0), (a, b)
for pre in ("it", "ci"):
    for op, lo, d in (("deref", 0, 0), ("arrow", 0, 0), ("pre", 0, 1), ("post", 0, 1), ("predec", 1, -1), ("postdec", 1, -1)):
        @task(P6, f"{pre}_{op}")
        def t(T, pre=pre, op=op, lo=lo, d=d):
            R = setup(T); l = R.make("d"); i = T.int("i"); T.assume(And(Le(lo, i), Le(i, l.n) if d < 0 else Lt(i, l.n))); a, old = itr(T, R, l, i, pre); k = "C" * (pre == "ci")
            def post(st, r):
                w = slot(T, R, st, l, Add(i, d)); now = T.cell(st, a, R.K[k + "I_p"], "p"), T.cell(st, a, R.K[k + "I_pp"], "p")
                for x, y in zip(now, w): T.must(st, PEq(x, y), "moves by one position" if d else "does not move")
                if not d: T.must(st, PEq(r, old[0]), "returns the element")
                elif op.startswith("pre"): T.must(st, PEq(r, a), "returns the iterator")
                else:
                    for x, y in zip(r, old): T.must(st, PEq(x, y), "returns the old position")
                T.frame(st, [l.buf], [l.p.obj, l.buf])
            T.post(T.call(f"{pre}_{op}", a), post)
    for op in ("eq", "ne", "diff"):
        @task(P6, f"{pre}_{op}")
        def t(T, pre=pre, op=op):
            R = setup(T); l = R.make("d"); i, j = T.int("i"), T.int("j"); T.assume(And(Le(i, l.n), Le(j, l.n))); a, _ = itr(T, R, l, i, pre); b, _ = itr(T, R, l, j, pre, "jt")
            T.post(T.call(f"{pre}_{op}", a, b), lambda st, r: T.must(st, Eq(r, Mod(Sub(i, j), M64)) if op == "diff" else zb(r) == zb(Eq(i, j) if op == "eq" else Ne(i, j)), "difference is the number of elements between" if op == "diff" else "iterators are equal exactly when they denote the same position"))
# ---- failing allocations (C25)
NOST = " when storage cannot be obtained"
for fn, mv in (("d_push_back", 0), ("d_push_back_m", 1), ("d_push_front", 0), ("d_push_front_m", 1)):
    for own in (0, 1):
        if own and mv: continue
        @task("C25", f"{fn}[{'own element' if own else 'other element'}]" + NOST)
        def t(T, fn=fn, own=own):
            R = setup(T); l = R.make("d"); x, v = elemarg(T, R, l, own)
            def chk(st):
                R.check(st, l.p, l.n, l.S, "after the failure")
                if not own: T.must(st, T.elem_alive(st, x), "argument stays alive"); T.must(st, Eq(T.elem_val(st, x), v), "argument unchanged")
            T.fails(fn, [l.p, x], chk)
@task("C25", "d_ctor" + NOST)
def t(T): R = setup(T); p = R.fresh("d"); T.fails("d_ctor", [p], lambda st: T.frame(st, []))
for fn in ("d_ctor_copy", "d_ctor_move"):
    @task("C25", fn + NOST)
    def t(T, fn=fn): R = setup(T, True); s = R.make("src"); p = R.fresh("d"); T.fails(fn, [p, s.p], lambda st: (keep(T, R, st, s, "source unchanged"), T.frame(st, [s.buf])), [p])
@task("C25", "d_ctor_il" + NOST)
def t(T):
    R = setup(T, True); p = R.fresh("d"); n = T.int("n"); T.assume(Le(n, lib.MAXSZ)); a = T.struct("init", n); f = FFun("init_S", I_, I_)
    a.comps["alive"] = FM.base(lambda key: InRange(0, key[0], n)); a.comps["val"] = FM.base(lambda key: f(zi(key[0])))
    T.fails("d_ctor_il", [p, Ptr(a.id, 0), n], lambda st: T.frame(st, [], [a.id]), [p])
@task("C25", "d_assign" + NOST)
def t(T):
    R = setup(T, True); s = R.make("src"); l = R.make("d")
    def chk(st):
        if not R.folded(st, l.p.obj): R.check(st, l.p, 0, l.S, "after the failure")
        else:
            m = R.model(st, l.p.obj); T.must(st, Le(m.n, s.n), "no more elements than the source"); T.all(st, 0, m.n, lambda s1, i: Eq(T.e.fm_read(s1, s1.mem[l.p.obj].comps["aval"], (i,), None), s.S(i)), "after the failure: the elements assigned so far")
        keep(T, R, st, s, "source unchanged"); T.frame(st, [s.buf])
    T.fails("d_assign", [l.p, s.p], chk)
