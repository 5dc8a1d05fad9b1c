"""General loop rule: arbitrary loop-carried values constrained by candidate invariants (inferred or supplied by the
contract), each checked to hold on entry and to be preserved by the body; a variant must decrease."""
import z3
from terms import *
import loops as LP

class Inv:
    """user-supplied invariant.  goal(e, st, vals) -> [(state, formula)] to prove; use(e, st, vals) adds it to the state"""
    name = "invariant"
    def goal(self, e, st, vals): raise NotImplementedError
    def use(self, e, st, vals): raise NotImplementedError
class Term(Inv):
    def __init__(self, name, f): self.name = name; self.f = f
    def goal(self, e, st, vals): return [(st, self.f(vals))]
    def use(self, e, st, vals): e.assume(st, self.f(vals))
class Forall(Inv):
    """for all q in [lo(vals), hi(vals)): P(q)"""
    def __init__(self, name, lo, hi, P): self.name = name; self.lo = lo; self.hi = hi; self.P = P
    def goal(self, e, st, vals):
        from engine import Dead
        q = FInt("q"); s = st.copy()
        try: e.assume(s, And(Le(self.lo(vals), q), Lt(q, self.hi(vals))))
        except Dead: return []
        return [(s, self.P(e, s, q))]
    def use(self, e, st, vals): forall(e, st, self.lo(vals), self.hi(vals), lambda q: self.P(e, st, q))
def forall(e, st, lo, hi, P):
    """record: for all q in [lo,hi): P(q)   (P must be expressible without adding facts to the state)"""
    n = FInt("bd"); e.assume(st, Eq(n, Sub(hi, lo)))
    h = P(Add(lo, n))
    if isinstance(h, bool):
        if not h: e.assume(st, Le(n, 0))
        return
    st.ghost["hist"] = st.ghost.get("hist", ()) + ((n, h),)

def flat(v):
    if isinstance(v, Ptr): return [v.obj, v.off]
    if isinstance(v, tuple): return [y for x in v for y in flat(x)]
    return [v]

def havoc_loop(self, fn, st, env, b, prev, region, phis, init, why):
    from engine import Dead, Unsupported, UNINIT
    where = f"[{self.cur}] loop at {LP.lineof(b)}"
    cells = {}; ctr0 = LP.counter()
    def sym_state(base, silent):
        s = base.copy(); s.silent = base.silent or silent
        e = dict(env); vals = {}
        for I in phis:
            x = LP.fresh_like(init[I.id], "hv%d_" % I.id); vals[I.id] = x; e[I.id] = x
            LP.rng(s, x, I.ty)
        for ck, v0 in cells.items():
            t, c, key = ck
            x = LP.fresh_like(v0, "hc"); vals[ck] = x
            LP.set_comp(s, t, c, LP.get_comp(LP.get_t(s, t), c).pt(key, x))
            if t[0] == "o" and isc(key[0]): LP.get_t(s, t).otypes.setdefault(key[0], "p" if c in ("po", "pp") else c)
            if c in ("i8", "i16", "i32", "i64"): s.pc.append(z3.And(x >= 0, x < (1 << int(c[1:]))))
        for r in self.bufreps:
            if r.active(s): r.havoc(self, s)
        return s, e, vals
    def next_vals(o):
        nv = LP.phi_next(self, o, phis); r = dict(nv)
        for ck in cells: r[ck] = self.fm_read(o[1], LP.get_comp(LP.get_t(o[1], ck[0]), ck[1]), ck[2], None)
        return r
    init_vals = lambda: {**{I.id: init[I.id] for I in phis}, **cells}
    # ---- probe: which scalars in memory change
    for rnd in range(12):
        sp, e, vals = sym_state(st, 1)
        LP.hint(self, sp, phis, init, vals)
        for h in self.probe_hooks: h(self, sp, vals, init_vals())
        pre = sp.copy(); self.optimistic += 1
        try: outs = LP.body(self, fn, sp, dict(e), b, region)
        finally: self.optimistic -= 1
        backs = [o for o in outs if o[0] == "back"]
        if not backs: raise Unsupported(where + ": the body never repeats")
        new = False; seen = set()
        for o in backs:
            d, struct = LP.mem_diff(pre, o[1])
            own = set()
            for r in self.bufreps:
                if r.active(pre): own |= {("o", r.buf(self, pre)), ("o", r.buf(self, o[1]))}
            for x in struct:
                if x[1] in own: continue
                if x[0] == "new" and (o[1].mem[x[1][1]].name.startswith(("local", "@")) or not o[1].mem[x[1][1]].live): continue
                raise Unsupported(f"{where}: body changes the heap structure ({x[0]} {x[1]}); {why}")
            for t, c, ns, f0 in d:
                if t in own: continue
                for n in ns:
                    if n.kind == "base": continue
                    if any((t, c, tuple(n.a)) in r.fields() for r in self.bufreps if n.kind == "pt"): continue
                    if n.kind == "pt" and all(isc(k) for k in n.a):
                        ck = (t, c, tuple(n.a)); seen.add(ck)
                        if ck not in cells:
                            v0 = self.fm_read(st, LP.get_comp(LP.get_t(st, t), c), n.a, None)
                            cells[ck] = 0 if v0 is UNINIT else v0; new = True
                    elif not (t[0] == "o" and pre.mem[t[1]].name.startswith("local")): raise Unsupported(f"{where}: writes memory at varying positions {t} {c} {n.kind} {n.a}; {why}")
        gone = [ck for ck in cells if ck not in seen]
        for ck in gone: del cells[ck]
        if not new and not gone: break
    else: raise Unsupported(where + ": modified locations do not stabilise")
    npc = len(pre.pc)
    # ---- candidates
    cands = []
    for I in phis:
        if isinstance(init[I.id], Ptr):
            cands.append(Term("same object", lambda v, i=I.id: Eq(v[i].obj, init[i].obj)))
    iv = init_vals()
    keys = []
    for k, v0 in iv.items():
        if isinstance(v0, Ptr): keys.append((lambda v, k=k: v[k].off, str(k)))
        elif isinstance(v0, int) and not isinstance(v0, bool) or (isinstance(v0, z3.ExprRef) and z3.is_int(v0)): keys.append((lambda v, k=k: v[k], str(k)))
    for i, (f, a) in enumerate(keys):
        x0 = f(iv)
        cands.append(Term("const", lambda v, f=f, x0=x0: Eq(f(v), x0)))
        cands.append(Term("ge", lambda v, f=f, x0=x0: Le(x0, f(v)))); cands.append(Term("le", lambda v, f=f, x0=x0: Le(f(v), x0)))
        for g, b_ in keys[i + 1:]:
            y0 = g(iv)
            cands.append(Term("sum", lambda v, f=f, g=g, c=Add(x0, y0): Eq(Add(f(v), g(v)), c)))
            cands.append(Term("diff", lambda v, f=f, g=g, c=Sub(x0, y0): Eq(Sub(f(v), g(v)), c)))
            cands.append(Term("le2", lambda v, f=f, g=g: Le(f(v), g(v)))); cands.append(Term("ge2", lambda v, f=f, g=g: Le(g(v), f(v))))
    # bounds occurring in the path conditions of the body
    flatv = {k: v for k, v in vals.items()}
    symc = set()
    for v in vals.values(): symc |= consts_of(v)
    variants = []
    seen = set()
    for o in backs:
        for c in o[1].pc[npc:]:
            for lo, hi, strict in LP.atoms(c):
                cs = consts_of(lo) | consts_of(hi)
                if not (cs & symc): continue
                if any(LP.cnum(x) > ctr0 for x in cs - symc): continue
                key = (str(lo), str(hi), strict)
                if key in seen: continue
                seen.add(key)
                def mk(t, syms=tuple((k, vals[k]) for k in vals)):
                    def f(v):
                        ps = []
                        for k, s0 in syms:
                            for a, b2 in zip(flat(s0), flat(v[k])):
                                if isinstance(a, z3.ExprRef): ps.append((a, b2))
                        return subst(t, ps)
                    return f
                fl, fh = mk(lo), mk(hi)
                cands.append(Term("guard", lambda v, fl=fl, fh=fh: Le(fl(v), fh(v))))
                if strict == "ne": cands.append(Term("guard", lambda v, fl=fl, fh=fh: Le(fh(v), fl(v)))); variants.append((fl, fh))
                variants.append((fh, fl))
    for h in self.inv_cands: cands += h(self, st, b, phis, init, cells)
    def holds(s, c, v):
        mark = len(s.pc)
        for s2, g in c.goal(self, s, v):
            if isinstance(g, bool):
                if not g: return False
                continue
            s3 = s2.copy()
            self.inst_hist(s3, g)
            if not self.entailed(s3, g): return False
        return True
    for r in self.bufreps:
        if r.active(st): r.check(self, st.copy(), where + " entry")
    good = [c for c in cands if holds(st.copy(), c, iv)]
    for c in good:
        for s2, g in c.goal(self, st.copy(), iv): self.oblige(s2.copy(), g, f"{where}: invariant holds on entry ({c.name})")
    def start(silent):
        s, e, v = sym_state(st, silent)
        for c in good: c.use(self, s, v)
        return s, e, v
    while True:
        try: s, e, v = start(1)
        except Dead: raise Unsupported(where + ": contradictory invariants")
        if not self.feasible(s): break
        outs = LP.body(self, fn, s, dict(e), b, region)
        bad = []
        for o in outs:
            if o[0] != "back": continue
            nv = next_vals(o)
            for c in good:
                if c not in bad and not holds(o[1], c, nv): bad.append(c)
        if not bad: break
        good = [c for c in good if c not in bad]
    s, e, v = start(0)
    base = s.copy()
    outs = LP.body(self, fn, s, dict(e), b, region)
    self.loop_log.append(f"{where}: general rule, {len(good)} invariants ({', '.join(sorted({c.name for c in good if type(c) is not Term}))})")
    res = []
    for o in outs:
        if o[0] != "back": res.append(o); continue
        so = o[1]; nv = next_vals(o); skip = set(); flds = set()
        for r in self.bufreps:
            if r.active(so):
                r.check(self, so, where); skip |= {("o", r.buf(self, so)), ("o", r.buf(self, base))}; flds |= r.fields()
                ob = so.mem.get(r.buf(self, base))
                if ob is not None and r.buf(self, so) != r.buf(self, base): self.oblige(so.copy(), not ob.live, f"{where}: replaced storage is released")
        for c in good:
            for s2, g in c.goal(self, so, nv):
                self.oblige(s2 if s2 is not so else so.copy(), g, f"{where}: invariant preserved ({c.name})")
        # every other memory location is unchanged
        want = base.copy()
        for ck in cells:
            t, cc, key = ck
            if VEq(nv[ck], v[ck]) is True: continue
            LP.set_comp(want, t, cc, LP.get_comp(LP.get_t(want, t), cc).pt(key, nv[ck]))
        for (t, cc, key) in flds:
            LP.set_comp(want, t, cc, LP.get_comp(LP.get_t(want, t), cc).pt(key, self.fm_read(so, LP.get_comp(LP.get_t(so, t), cc), key, None)))
        for t, o1 in LP.targets(so):
            if t in skip: continue
            ow = LP.get_t(want, t)
            if ow is None:
                if o1.name.startswith(("local", "@")) or not o1.live: continue
                self.oblige(so.copy(), False, f"{where}: heap objects are preserved"); continue
            if t[0] == "o" and ow.live != o1.live: self.oblige(so.copy(), False, f"{where}: {o1.name} stays allocated")
            if o1.name.startswith("local") and t[1] not in st.mem: continue
            cw, c1 = LP.comps_of(ow, t), LP.comps_of(o1, t)
            for cc in set(cw) | set(c1):
                fa, fb = LP.get_comp(ow, cc), LP.get_comp(o1, cc)
                if fa is fb: continue
                self.map_equal(so, fa, fb, cc, f"{where}: memory {o1.name}.{cc} unchanged by the body", t)
        ok = False
        for fh, fl in variants:
            m0, m1 = Sub(fh(v), fl(v)), Sub(fh(nv), fl(nv))
            if self.entailed(so, And(Lt(m1, m0), Le(0, m0))): ok = True; break
        if not ok:
            for h in self.term_hooks:
                if h(self, so, v, nv): ok = True; break
        self.oblige(so.copy(), True if ok else False, f"{where}: terminates (a variant decreases and is bounded)")
    return res
