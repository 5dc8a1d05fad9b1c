"""Contracts of cest::forward_list over the sequence model (n, S) with the ghost node sequence N."""
from spec import *
from nodes import *
import loops as LP
HARNESS = "fwd"
DEF = z3.Int("DEFAULT_E"); P = "C08"
class Rep:
    """A forward_list of n elements is the header followed by n distinct live heap nodes N(0..n) linked in order, the last
    one to null; node i holds S(i); no other node is owned."""
    def __init__(self, T):
        self.T = T; T.sz, T.onode, T.nsz, T.onx, T.oval = [T.cval(x) for x in ("L_sizeof", "L_off_node", "N_sizeof", "N_off_next", "N_off_val")]
        if T.onode: raise Unsupported("header is not at offset 0")
    def model(self, o, name, n, S): 
        T = self.T; m = Model(); m.p = Ptr(o.id, 0); m.n = n; m.S = S; m.fam = name + ".nodes"
        m.q = NSeq(T, m.fam, n, T.nsz, o.id, 0, {T.onx: 1}, {T.oval: S}); m.segs = [(n, m.q.at, S)]; return m
    def make(self, name):
        T = self.T; o = T.struct(name, T.sz); n = T.int(name + "_n"); T.assume(Lt(n, lib.MAXSZ // 4)); f = FFun(name + "_S", I_, I_)
        m = self.model(o, name, n, lambda i: f(zi(i))); T.set_cell(o, T.onx, "p", Ptr(m.q.at(0), 0)); return m
    def fresh(self, name): return Ptr(self.T.struct(name, self.T.sz).id, 0)
    def empty(self, st, p, why): self.T.must(st, PEq(self.T.cell(st, p, self.T.onx, "p"), NULL), why + ": empty list")
    def check(self, st, p, fams, segs, why, live=None, must=None):
        """the list at p is the concatenation of the segments (length, node, value); fams: models whose nodes it may own, each with its position map"""
        T = self.T; e = T.e; n = 0; ends = []; must = must or T.must
        for ln, _, _ in segs: ends.append((n, Add(n, ln))); n = Add(n, ln)
        def node(j):
            r = 0
            for (lo, hi), (ln, f, g) in reversed(list(zip(ends, segs))): r = If(InRange(lo, j, hi), f(Sub(j, lo)), r)
            return r
        c = T.cell(st, p, T.onx, "p"); must(st, And(Eq(c.obj, node(0)), Eq(c.off, 0)), why + ": header links to the first node")
        for (lo, hi), (ln, f, g) in zip(ends, segs):
            s = st.copy(); j = FInt("j")
            try: e.assume(s, InRange(lo, j, hi))
            except Dead: continue
            if not e.feasible(s): continue
            def one(s):
                id = f(Sub(j, lo)); r = e.resolve(s, Ptr(id, 0), T.nsz, "post: " + why + ": node"); fam, key = (r[1], (r[2],)) if r[0] == "f" else (r[1], ())
                rd = lambda c, off: e.fm_read(s, fam.comp(c), key + (off,), None)
                if r[0] == "o": must(s, fam.heap, why + ": node is heap memory"); must(s, Eq(fam.size, T.nsz), why + ": node size")
                must(s, And(Eq(rd("po", T.onx), node(Add(j, 1))), Eq(rd("pp", T.onx), 0)), why + ": node links to the next position")
                must(s, rd("alive", T.oval), why + ": element is alive"); must(s, Eq(rd("val", T.oval), g(Sub(j, lo))), why + ": element i has the specified value")
            T.each(s, one)
        for m, live in fams:
            s = st.copy(); id = FInt("id"); fm = s.fams[m.fam]; lv = e.fm_read(s, fm.live, (id,), None); x = m.q.X(id); inv = live(x) if live else x
            must(s, Implies(lv, And(InRange(0, inv, n), Eq(node(inv), id))), why + ": every other node is released (no leak)")
            s = st.copy(); id = FInt("id"); off = FInt("off"); fm = s.fams[m.fam]; al = e.fm_read(s, fm.comp("alive"), (id, off), None); lv = e.fm_read(s, fm.live, (id,), None)
            must(s, Implies(al, And(lv, Eq(off, T.oval))), why + ": live elements lie in live nodes")
    def keep(self, st, m, why): self.check(st, m.p, [(m, None)], m.segs, why)
    def gone(self, st, m, why):
        T = self.T; s = st.copy(); id = FInt("id"); T.must(s, Not(T.e.fm_read(s, s.fams[m.fam].live, (id,), None)), why + ": every node is released")
        s = st.copy(); T.must(s, Not(T.e.fm_read(s, s.fams[m.fam].comp("alive"), (FInt("id"), FInt("off")), None)), why + ": every element is destroyed")
# ---- loops that append fresh nodes: after k iterations the list at `this` has k nodes M(0..k) with values S(c..c+k)
class Building:
    """Loop contract.  A loop that allocates one node per iteration keeps: the destination list is M(0..k) holding the first
    k source values; every loop-carried pointer either is constant, or is the source position c+k, or the last new node."""
    def __init__(self, R, src): self.R = R; self.src = src; self.built = None
    def __call__(self, e, fn, st, env, b, prev, region, phis, init):
        R, T, src = self.R, self.R.T, self.src; where = f"[{e.cur}] building loop at {LP.lineof(b)}"
        s0 = st.copy(); s0.silent = 1; en = dict(env); en.update(init); base = st
        slots = {}
        def is_local(st, id): return id in st.mem and st.mem[id].name.startswith("local")
        outs = e.run(fn, s0.copy(), dict(en), b, None, region, b); bk = [o for o in outs if o[0] == "back"]
        if not bk or not any(len(new_nodes(o[1], st)) == 1 for o in bk): return None
        # destination: an object whose header is null and is written in the first iteration
        dest = [id for id, o in bk[0][1].mem.items() if id in st.mem and o is not st.mem[id] and not is_local(st, id) and id != src.p.obj]
        if is_local(st, src.p.obj): return None
        dest = dest or [id for id, o in bk[0][1].mem.items() if id in st.mem and o is not st.mem[id] and Eq(st.mem[id].size, T.sz) is True and id != src.p.obj]
        if len(dest) != 1: return None
        D = dest[0]
        for I in phis: slots[("phi", I.id)] = init[I.id]
        for o in bk:
            for t, c, ns, f0 in LP.mem_diff(st, o[1])[0]:
                if t == ("o", D) or t[0] != "o" : continue
                for n in ns:
                    if n.kind == "pt" and c == "po" and all(isc(x) for x in n.a):
                        slots[("cell", t[1], n.a[0])] = Ptr(e.fm_read(st, st.mem[t[1]].comp("po"), n.a, None), e.fm_read(st, st.mem[t[1]].comp("pp"), n.a, None))
        k = FInt("k"); R.T.st = st; fresh = st.copy()
        m = None
        def forms(v):
            r = [("const", lambda j, node: v)]
            if isinstance(v, Ptr):
                p = src.q.pos(v.obj)
                if p is not None: r.insert(0, ("source", lambda j, node: Ptr(src.q.at(Add(p, j)), v.off)))
                elif Eq(v.obj, D) is True: r.insert(0, ("last", lambda j, node: Ptr(node(Sub(j, 1)), v.off)))
            elif z3.is_int(v) or isc(v): r.insert(0, ("count", lambda j, node: Add(v, j)))
            return r
        alts = {s: forms(v) for s, v in slots.items()}; choice = {s: 0 for s in slots}
        # the source position of the value copied in iteration k
        T0 = T.st; cs = FInt("c")
        def start(silent):
            nonlocal m
            s = st.copy(); s.silent = st.silent or silent; s.pc.append(k >= 0); s.pc.append(zi(k) <= zi(src.n)); T.st = s
            if m is None: m = R.model(s.mem[D], f"copy{D}", k, src.S); self.fam0 = s.fams[m.fam]
            else: s.fams[m.fam] = self.fam0
            o = s.wobj(D); T.set_cell(o, T.onx, "p", Ptr(m.q.at(0), 0)); ev = dict(env)
            for sl in slots:
                v = alts[sl][choice[sl]][1](k, m.q.at)
                if sl[0] == "phi": ev[sl[1]] = v
                else: o = s.wobj(sl[1]); T.set_cell(o, sl[2], "p", v)
            T.st = T0; return s, ev
        def nxt(o):
            pn = LP.phi_next(e, o, phis); r = {}
            for sl in slots:
                r[sl] = pn[sl[1]] if sl[0] == "phi" else Ptr(e.fm_read(o[1], o[1].mem[sl[1]].comp("po"), (sl[2],), None), e.fm_read(o[1], o[1].mem[sl[1]].comp("pp"), (sl[2],), None))
            return r
        for rnd in range(8):
            s, ev = start(1); outs = e.run(fn, s, ev, b, None, region, b); bad = set()
            for o in outs:
                if o[0] != "back": continue
                nn = new_nodes(o[1], st)
                if len(nn) != 1: return None
                nv = nxt(o); node = lambda j: If(Lt(j, k), m.q.at(j), nn[0])
                for sl in slots:
                    if not e.entailed(o[1], VEq(nv[sl], alts[sl][choice[sl]][1](Add(k, 1), node))): bad.add(sl)
            if not bad: break
            for sl in bad:
                choice[sl] += 1
                if choice[sl] >= len(alts[sl]): return None
        # entry
        R.empty(st.copy(), Ptr(D, 0), where + " entry")
        for sl, v in slots.items():
            e.oblige(st.copy(), VEq(v, S_(alts[sl][choice[sl]][1](0, lambda j: D if Eq(j, -1) is True else m.q.at(j)))), f"{where}: invariant holds on entry")
        s, ev = start(0); start_state = s.copy(); outs = e.run(fn, s, ev, b, None, region, b); res = []
        for o in outs:
            if o[0] != "back":
                self.built = m; res.append(o); continue
            so = o[1]; nn = new_nodes(so, st)
            e.oblige(so.copy(), len(nn) == 1, f"{where}: one node is allocated per iteration")
            nv = nxt(o); node = lambda j: If(Lt(j, k), m.q.at(j), nn[0])
            for sl in slots: e.oblige(so.copy(), VEq(nv[sl], alts[sl][choice[sl]][1](Add(k, 1), node)), f"{where}: invariant preserved (loop-carried value)")
            e.oblige(so.copy(), Lt(k, src.n), f"{where}: invariant preserved and terminates (one source position per iteration)")
            R.check(so.copy(), Ptr(D, 0), [(m, None)], [(k, m.q.at, src.S), (1, lambda j: nn[0], lambda j: src.S(Add(j, k)))], where + ": destination", must=lambda s, c, nm: e.oblige(s, c, nm))
            skip = {("o", D), ("f", m.fam), ("o", nn[0])} | {("o", sl[1]) for sl in slots if sl[0] == "cell"}
            for t, o1 in LP.targets(so):
                if t in skip: continue
                ow = LP.get_t(start_state, t)
                if ow is o1: continue
                if ow is None:
                    if not o1.live or o1.name.startswith(("local", "@")): continue
                    e.oblige(so.copy(), False, f"{where}: heap objects are preserved"); continue
                if o1.name.startswith("local") and t[1] not in st.mem: continue
                e.oblige(so.copy(), True if t[0] == "f" else ow.live == o1.live, f"{where}: {o1.name} stays allocated")
                cw, c1 = LP.comps_of(ow, t), LP.comps_of(o1, t)
                for cc in set(cw) | set(c1):
                    fa, fb = LP.get_comp(ow, cc), LP.get_comp(o1, cc)
                    if fa is not fb: e.map_equal(so, fa, fb, cc, f"{where}: memory {o1.name}.{cc} unchanged by the body", t)
        e.loop_log.append(f"{where}: building rule"); return res
def S_(v): return Ptr(S(v.obj) if not isc(v.obj) else v.obj, v.off) if isinstance(v, Ptr) else v
def new_nodes(st, st0): return [i for i, o in st.mem.items() if o.heap and o.live and i not in st0.mem]
def setup(T): lib.install_elem(T.e, "E", 1, DEF); T.done_externs(); return Rep(T)
# ---- insertion
for fn, w, mv in (("f_push_front", 0, 0), ("f_push_front_m", 0, 1), ("f_insert", 1, 0), ("f_insert_m", 1, 1)):
    for own in (0, 1):
        if own and mv: continue
        @task(P, f"{fn}[{'own element' if own else 'other element'}]")
        def t(T, fn=fn, w=w, mv=mv, own=own):
            R = setup(T); l = R.make("l"); i = 0
            if own: a = T.int("own"); T.assume(Lt(a, l.n)); x, v = Ptr(l.q.at(a), T.oval), l.S(a)
            else: x, v = T.elem("x")
            if w: i = T.int("i"); T.assume(Le(i, l.n))
            def post(st, r):
                new = new_nodes(st, T.st); T.must(st, len(new) == 1, "one node is allocated"); H = new[0]
                R.check(st, l.p, [(l, lambda x: If(Lt(x, i), x, Add(x, 1)))], [(i, l.q.at, l.S), (1, lambda j: H, lambda j: v), (Sub(l.n, i), lambda j: l.q.at(Add(j, i)), lambda j: l.S(Add(j, i)))], fn)
                if w: T.must(st, PEq(r, Ptr(H, 0)), "returns an iterator to the new element")
                if not own: T.must(st, T.elem_alive(st, x), "argument stays alive"); T.must(st, True if mv else Eq(T.elem_val(st, x), v), "argument unchanged")
            T.post(T.call(fn, l.p, *([Ptr(l.q.at(Sub(i, 1)), 0)] if w else []), x), post)
# ---- erasure
def erased(T, R, st, l, i, j, why):
    d = Sub(j, i)
    R.check(st, l.p, [(l, lambda x: If(Lt(x, i), x, Sub(x, d)))], [(i, l.q.at, l.S), (Sub(l.n, j), lambda q: l.q.at(Add(q, j)), lambda q: l.S(Add(q, j)))], why); T.frame(st, [])
@task(P)
def f_pop_front(T):
    R = setup(T); l = R.make("l"); T.assume(Lt(0, l.n)); T.post(T.call("f_pop_front", l.p), lambda st, r: erased(T, R, st, l, 0, 1, "pop_front"))
@task(P)
def f_erase(T):
    R = setup(T); l = R.make("l"); i = T.int("i"); T.assume(Lt(i, l.n))
    T.post(T.call("f_erase", l.p, Ptr(l.q.at(Sub(i, 1)), 0)), lambda st, r: (erased(T, R, st, l, i, Add(i, 1), "erase_after"), T.must(st, PEq(r, Ptr(l.q.at(Add(i, 1)), 0)), "returns an iterator to the element after the erased one")))
@task(P)
def f_erase2(T):
    R = setup(T); l = R.make("l"); i, j = T.int("i"), T.int("j"); T.assume(And(Le(i, j), Le(j, l.n)))
    T.post(T.call("f_erase2", l.p, Ptr(l.q.at(Sub(i, 1)), 0), Ptr(l.q.at(j), 0)), lambda st, r: (erased(T, R, st, l, i, j, "erase_after range"), T.must(st, PEq(r, Ptr(l.q.at(j), 0)), "returns last")))
# ---- whole-list operations
@task(P)
def f_ctor(T): R = setup(T); p = R.fresh("l"); T.post(T.call("f_ctor", p), lambda st, r: (R.empty(st, p, "default constructor"), T.frame(st, [])))
@task(P)
def f_clear(T): R = setup(T); l = R.make("l"); T.post(T.call("f_clear", l.p), lambda st, r: (R.empty(st, l.p, "clear"), R.gone(st, l, "clear"), T.frame(st, [])))
@task(P)
def f_dtor(T): R = setup(T); l = R.make("l"); T.post(T.call("f_dtor", l.p), lambda st, r: (R.gone(st, l, "destructor"), T.frame(st, [])))
def copied(T, R, st, p, s, B, why):
    if B.built is None or B.built.fam not in st.fams: R.empty(st, p, why); T.must(st, Eq(s.n, 0), why + ": source is empty"); return
    m = B.built; T.must(st, Eq(m.n, s.n), why + ": size"); R.check(st, p, [(m, None)], m.segs, why)
for fn in ("f_ctor_copy", "f_ctor_move"):
    @task(P, fn)
    def t(T, fn=fn):
        R = setup(T); s = R.make("src"); p = R.fresh("l"); B = Building(R, s); T.e.loop_hooks.append(B)
        T.post(T.call(fn, p, s.p), lambda st, r: (copied(T, R, st, p, s, B, "copy"), R.keep(st, s, "source unchanged"), T.frame(st, [])))
for fn in ("f_assign", "f_assign_m"):
    for self_ in (0, 1):
        @task(P, fn + ("[self]" if self_ else ""))
        def t(T, fn=fn, self_=self_):
            R = setup(T); s = R.make("src"); l = s if self_ else R.make("l"); B = Building(R, s); T.e.loop_hooks.append(B)
            def post(st, r):
                if self_ and B.built is None: R.keep(st, s, "self-assignment"); return
                copied(T, R, st, l.p, s, B, "assignment"); R.gone(st, l, "old contents"); T.must(st, PEq(r, l.p), "returns the list"); T.frame(st, [])
                if not self_: R.keep(st, s, "source unchanged")
            T.post(T.call(fn, l.p, s.p), post)
@task(P)
def f_swap(T):
    R = setup(T); a = R.make("a"); b = R.make("b")
    T.post(T.call("f_swap", a.p, b.p), lambda st, r: (R.check(st, a.p, [(b, None)], b.segs, "swap"), R.check(st, b.p, [(a, None)], a.segs, "swap"), T.frame(st, [])))
@task(P)
def f_swap_self(T): R = setup(T); a = R.make("a"); T.post(T.call("f_swap", a.p, a.p), lambda st, r: (R.keep(st, a, "swap with itself"), T.frame(st, [])))
# ---- observers
def obs(fn, f, pre=None):
    @task(P, fn)
    def t(T):
        R = setup(T); l = R.make("l")
        if pre: T.assume(pre(l))
        T.post(T.call(fn, l.p), lambda st, r: (T.must(st, (PEq(r, f(T, l)) if isinstance(f(T, l), Ptr) else zb(r) == zb(f(T, l))), fn + " result"), R.keep(st, l, "unchanged"), T.frame(st, [], [l.p.obj])))
for f in ("f_front", "f_cfront"): obs(f, lambda T, l: Ptr(l.q.at(0), T.oval), lambda l: Lt(0, l.n))
for f in ("f_begin", "f_begin_c", "f_cbegin"): obs(f, lambda T, l: Ptr(l.q.at(0), 0))
for f in ("f_end", "f_end_c", "f_cend"): obs(f, lambda T, l: NULL)
obs("f_before", lambda T, l: Ptr(l.p.obj, 0)); obs("f_empty", lambda T, l: Eq(l.n, 0))
# ---- iterators
def itr(T, l, i, nm="it"):
    o = T.struct(nm, 8); T.set_cell(o, 0, "p", Ptr(l.q.at(i), 0)); return Ptr(o.id, 0)
for pre in ("it", "ci"):
    for op, lo, d in (("deref", 0, 0), ("arrow", 0, 0), ("pre", -1, 1), ("post", -1, 1)):
        @task(P, f"{pre}_{op}")
        def t(T, pre=pre, op=op, lo=lo, d=d):
            R = setup(T); l = R.make("l"); i = FInt("i"); T.assume(And(Le(lo, i), Lt(i, l.n))); a = itr(T, l, i)
            def post(st, r):
                T.must(st, PEq(T.cell(st, a, 0, "p"), Ptr(l.q.at(Add(i, d)), 0)), "moves by one position" if d else "does not move")
                T.must(st, PEq(r, Ptr(l.q.at(i), T.oval) if not d else a if op.startswith("pre") else Ptr(l.q.at(i), 0)), "returns the element" if not d else "returns the iterator" if op.startswith("pre") else "returns the old position")
                R.keep(st, l, "list unchanged"); T.frame(st, [])
            T.post(T.call(f"{pre}_{op}", a), post)
    for op in ("eq", "ne"):
        @task(P, f"{pre}_{op}")
        def t(T, pre=pre, op=op):
            R = setup(T); l = R.make("l"); i, j = FInt("i"), FInt("j"); T.assume(And(Le(-1, i), Le(-1, j), Le(i, l.n), Le(j, l.n))); a, b = itr(T, l, i), itr(T, l, j, "jt")
            T.post(T.call(f"{pre}_{op}", a, b), lambda st, r: T.must(st, zb(r) == zb(Eq(i, j) if op == "eq" else Ne(i, j)), "iterators are equal exactly when they denote the same position"))
@task(P)
def ci_of(T): R = setup(T); l = R.make("l"); i = FInt("i"); T.assume(And(Le(-1, i), Le(i, l.n))); p = Ptr(l.q.at(i), 0); T.post(T.call("ci_of", p), lambda st, r: T.must(st, PEq(r, p), "conversion keeps the position"))
# ---- failing allocations (C25)
NOST = " when storage cannot be obtained"
for fn, w, mv in (("f_push_front", 0, 0), ("f_push_front_m", 0, 1), ("f_insert", 1, 0), ("f_insert_m", 1, 1)):
    for own in (0, 1):
        if own and mv: continue
        @task("C25", f"{fn}[{'own element' if own else 'other element'}]" + NOST)
        def t(T, fn=fn, w=w, own=own):
            R = setup(T); l = R.make("l"); i = 0
            if own: a = T.int("own"); T.assume(Lt(a, l.n)); x, v = Ptr(l.q.at(a), T.oval), l.S(a)
            else: x, v = T.elem("x")
            if w: i = T.int("i"); T.assume(Le(i, l.n))
            def chk(st):
                R.keep(st, l, "after the failure"); T.frame(st, [])
                if not own: T.must(st, T.elem_alive(st, x), "argument stays alive"); T.must(st, Eq(T.elem_val(st, x), v), "argument unchanged")
            T.fails(fn, [l.p] + ([Ptr(l.q.at(Sub(i, 1)), 0)] if w else []) + [x], chk)
for fn, fresh, self_ in (("f_ctor_copy", 1, 0), ("f_ctor_move", 1, 0), ("f_assign", 0, 0), ("f_assign", 0, 1), ("f_assign_m", 0, 0), ("f_assign_m", 0, 1)):
    @task("C25", fn + ("[self]" if self_ else "") + NOST)
    def t(T, fn=fn, fresh=fresh, self_=self_):
        R = setup(T); s = R.make("src"); l = s if self_ else None if fresh else R.make("l"); B = Building(R, s); T.e.loop_hooks.append(B)
        p = R.fresh("l") if fresh else l.p
        def chk(st):
            R.keep(st, s, "source unchanged"); T.frame(st, [])
            if l is not None and l is not s: R.keep(st, l, "target unchanged")
            if B.built is not None and B.built.fam in st.fams: R.gone(st, B.built, "the nodes copied so far")
        T.fails(fn, [p, s.p], chk)
