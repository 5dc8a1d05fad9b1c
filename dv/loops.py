"""Loop rule: closed-form invariants inferred from a probe of the body, always checked inductively."""
import time
import z3
from terms import *

MAXUNROLL = 70

def do_loop(self, fn, st, env, b, prev, region):
    from engine import Dead, Unsupported
    phis = [I for I in b.insts if I.op == "phi"]
    init = {}
    for I in phis:
        for pb, v in I.inc:
            if pb is prev: init[I.id] = self.op(st, env, v); break
    key = (self.cur, b.idx)
    # 0. abstract data types changed through contracts inside the loop are handled through their models
    if self.reps: fold_entry(self, fn, st, env, b, region, phis, init)
    # 1. user-supplied rule
    for h in self.loop_hooks:
        r = h(self, fn, st, env, b, prev, region, phis, init)
        if r is not None: return r
    # 2. concrete unrolling when every decision is determined
    r = try_unroll(self, fn, st, env, b, region, phis, init)
    if r is not None: return r
    # 3. closed-form summary
    mark = len(self.obligs)
    try: return summarise(self, fn, st.copy(), env, b, prev, region, phis, init)
    except Unsupported as ex:
        if len(self.obligs) != mark: raise
        why = str(ex)
    import havoc
    try: return havoc.havoc_loop(self, fn, st, env, b, prev, region, phis, init, why)
    except Unsupported as ex:
        raise Unsupported(f"{ex}; {why}")

def fold_entry(self, fn, st, env, b, region, phis, init):
    from engine import Unsupported
    for _ in range(4):
        s = st.copy(); s.silent = 1; e = dict(env); e.update(init)
        try: outs = self.run(fn, s, e, b, None, region, b)
        except Unsupported: return
        todo = [id for id, r in self.reps.items() if id in st.mem and not r.folded(st, id)
                and any(id in o[1].mem and r.folded(o[1], id) for o in outs if o[0] == "back")]
        if not todo: return
        for id in todo: self.reps[id].fold(st, id)

def body(self, fn, st, env, b, region):
    """one execution of the loop body; data types folded at entry are folded again at the back edge"""
    ids = [id for id, r in self.reps.items() if id in st.mem and r.folded(st, id)]
    outs = self.run(fn, st, env, b, None, region, b)
    for o in outs:
        if o[0] == "back":
            for id in ids: self.reps[id].fold(o[1], id)
    return outs

def try_unroll(self, fn, st, env, b, region, phis, init):
    from engine import Dead
    s = st.copy(); e = dict(env); e.update(init)
    mark = len(self.obligs); outs_all = []
    # quick test: is the first header decision determined, in silent mode
    multi = self.unroll_exits
    if multi:
        # complete unrolling: every path leaves the loop within `multi` iterations
        work = [(s, e, 0)]; fits = True
        while work and fits:
            s1, e1, it = work.pop()
            for o in self.run(fn, s1, dict(e1), b, None, region, b):
                if o[0] != "back": outs_all.append(o); continue
                if it + 1 >= multi: fits = False; break
                e2 = dict(o[2]); e2.update(phi_next(self, o, phis)); work.append((o[1], e2, it + 1))
        if fits: return outs_all
        del self.obligs[mark:]; outs_all = []; s = st.copy(); e = dict(env); e.update(init)
    for it in range(MAXUNROLL):
        s0 = s.copy(); s0.silent = 1
        sil = self.run(fn, s0, dict(e), b, None, region, b)
        backs = [o for o in sil if o[0] == "back"]
        if len(sil) != 1 and not (not backs):
            return undo(self, mark)
        if it == 0 and backs and len(sil) == 1:
            # peek a second iteration: a generic loop is recognised early
            o = backs[0]; s1 = o[1].copy(); e1 = dict(o[2]); e1.update(phi_next(self, o, phis))
            sil2 = self.run(fn, s1, e1, b, None, region, b)
            if len(sil2) != 1 and any(x[0] == "back" for x in sil2): return undo(self, mark)
        outs = self.run(fn, s, dict(e), b, None, region, b)
        if not any(o[0] == "back" for o in outs):
            return outs_all + outs
        nb = [o for o in outs if o[0] == "back"]
        if len(nb) > 1 or len(outs) > 1: return undo(self, mark)
        o = nb[0]; s = o[1]; nv = phi_next(self, o, phis); e = dict(o[2]); e.update(nv)
    return undo(self, mark)

def undo(self, mark):
    del self.obligs[mark:]
    return None

def phi_next(self, o, phis):
    _, s, e, pv = o
    r = {}
    for I in phis:
        for pb, v in I.inc:
            if pb is pv: r[I.id] = self.op(s, e, v); break
    return r

def fresh_like(v, nm):
    if isinstance(v, Ptr): return Ptr(FInt(nm + "o"), FInt(nm + "f"))
    if isinstance(v, tuple): return tuple(fresh_like(x, nm) for x in v)
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)): return FBool(nm)
    if isinstance(v, z3.ExprRef) and z3.is_real(v): return FReal(nm)
    return FInt(nm)

def nodes_above(head, base):
    """update nodes from newest to oldest strictly above base, or None if base is not an ancestor"""
    r = []; n = head
    while n is not base:
        if n is None: return None
        r.append(n); n = n.parent
    return r

def common(a, b):
    """greatest common ancestor of two maps"""
    while a is not b:
        if a is None or b is None: return None
        if a.depth >= b.depth: a = a.parent
        else: b = b.parent
    return a

def targets(s):
    for id, o in s.mem.items(): yield ("o", id), o
    for n, f in s.fams.items(): yield ("f", n), f

def get_t(s, t): return s.mem.get(t[1]) if t[0] == "o" else s.fams.get(t[1])
def set_comp(s, t, c, fm):
    o = s.wobj(t[1]) if t[0] == "o" else s.wfam(t[1])
    if c == "#live": o.live = fm
    else: o.comps[c] = fm
def comps_of(o, t):
    r = dict(o.comps)
    if t[0] == "f": r["#live"] = o.live
    return r
def get_comp(o, c): return o.live if c == "#live" else o.comp(c)

def mem_diff(s0, s1):
    """[(target, comp, [nodes newest..oldest])] of changes from s0 to s1, plus structural changes"""
    d = []; struct = []
    for t, o1 in targets(s1):
        o0 = get_t(s0, t)
        if o0 is None: struct.append(("new", t)); continue
        if o0 is o1: continue
        if t[0] == "o" and o0.live != o1.live: struct.append(("free", t))
        c0 = comps_of(o0, t)
        for c, f1 in comps_of(o1, t).items():
            f0 = c0.get(c)
            if f0 is f1: continue
            if f0 is None:
                ns = nodes_above(f1, None)
                # base node created on the fly: drop it
                ns2 = [n for n in ns if n.kind != "base"]
                d.append((t, c, ns2, [n for n in ns if n.kind == "base"][0])); continue
            ns = nodes_above(f1, f0)
            if ns is None:
                g = common(f0, f1)
                if g is None: struct.append(("map", t, c)); continue
                # a point write replaced the newest write to the same constant key
                below = nodes_above(f0, g); ns = nodes_above(f1, g)
                if all(n.kind == "pt" and all(isc(k) for k in n.a) for n in below):
                    ks = {tuple(n.a) for n in ns if n.kind == "pt"}
                    if all(tuple(n.a) in ks for n in below):
                        d.append((t, c, ns, g)); continue
                struct.append(("map", t, c)); continue
            d.append((t, c, ns, f0))
    return d, struct

def summarise(self, fn, st, env, b, prev, region, phis, init):
    from engine import Dead, Unsupported, FM, UNINIT
    where = f"[{self.cur}] loop at {lineof(b)}"
    moving = set()
    cells = {}     # (target, comp, key) -> initial value : scalars modified by the loop ("memory phis")
    # ---- probes, until the set of modified scalars is stable
    for rnd in range(12):
        sp = st.copy(); sp.silent = 1; ctr0 = counter()
        e = dict(env); sym = {}
        for I in phis:
            sym[I.id] = fresh_like(init[I.id], "ph%d_" % I.id); e[I.id] = sym[I.id]
            rng(sp, sym[I.id], I.ty)
        csym = {}
        for (t, c, key), v in cells.items():
            x = v if c in ("pp", "po") and isc(v) and (t, c, key) not in moving else fresh_like(v, "cell"); csym[(t, c, key)] = x
            fm = get_comp(get_t(sp, t), c)
            set_comp(sp, t, c, fm.pt(key, x))
            if c in ("i8", "i16", "i32", "i64"): sp.pc.append(z3.And(x >= 0, x < (1 << int(c[1:]))))
            if c == "po" and isinstance(x, z3.ExprRef):
                for sq in self.seqs:
                    if sq.hint(self, sp, Ptr(x, 0), Ptr(v, 0)): break
        # pointer phis: prefer "same object as initially" so that accesses resolve
        hint(self, sp, phis, init, sym)
        for I in phis: e[I.id] = sym[I.id]
        pre = sp.copy()
        npc = len(sp.pc)
        self.optimistic += 1
        try: outs = body(self, fn, sp, dict(e), b, region)
        finally: self.optimistic -= 1
        backs = [o for o in outs if o[0] == "back"]
        if not backs:
            # the loop never repeats: execute the header straight through
            sv = st.copy(); ee = dict(env); ee.update(init)
            outs = self.run(fn, sv, ee, b, None, region, b)
            if any(o[0] == "back" for o in outs): raise Unsupported(where + ": probe inconclusive")
            return outs
        new = False; seen = set()
        for o in backs:
            d, struct = mem_diff(pre, o[1])
            for x in struct:
                if x[0] == "new":
                    ob = o[1].mem[x[1][1]]
                    if ob.name.startswith(("local", "@")) : continue
                    if not ob.live: continue
                raise Unsupported(f"{where}: body changes the heap structure ({x[0]} {x[1]})")
            for t, c, ns, f0 in d:
                for n in ns:
                    if n.kind == "pt" and all(isc(k) for k in n.a): seen.add((t, c, tuple(n.a)))
                    if n.kind == "pt" and all(isc(k) for k in n.a) and (t, c, tuple(n.a)) not in cells:
                        v0 = self.fm_read(st, get_comp(get_t(st, t), c), n.a, None)
                        if v0 is UNINIT: v0 = None
                        cells[(t, c, tuple(n.a))] = v0 if v0 is not None else 0
                        new = True
        for ck, x in csym.items():
            if ck[1] in ("pp", "po") and isc(x):
                if any(VEq(self.fm_read(o[1], get_comp(get_t(o[1], ck[0]), ck[1]), ck[2], None), x) is not True for o in backs): moving.add(ck); new = True
        # a position that looked constant only because another scalar had its entry value is not a scalar
        gone = [ck for ck in cells if ck not in seen]
        for ck in gone: del cells[ck]
        if not new and not gone: break
    else: raise Unsupported(where + ": modified locations do not stabilise")
    # ---- closed forms for phis and scalar cells
    k = FInt("k")
    syms = []; forms = {}      # sym const -> closed form in k
    def note(s0, i0, nexts):
        """s0 symbol(s), i0 initial value, nexts list of next values"""
        if isinstance(s0, Ptr):
            note(s0.off, i0.off, [n.off for n in nexts]); note(s0.obj, i0.obj, [n.obj for n in nexts]); return
        if isinstance(s0, tuple):
            for j in range(len(s0)): note(s0[j], i0[j], [n[j] for n in nexts])
            return
        if isc(s0):
            if not all(VEq(n, s0) is True for n in nexts): raise Unsupported(f"{where}: offset of a sequence pointer changes")
            return
        pend.append((s0, i0, nexts))
    pend = []
    for I in phis: note(sym[I.id], init[I.id], [phi_next(self, o, phis)[I.id] for o in backs])
    for ck, x in csym.items():
        t, c, key = ck
        note(x, cells[ck], [self.fm_read(o[1], get_comp(get_t(o[1], t), c), key, None) for o in backs])
    progress = True; unresolved = pend
    known = set()
    for x in list(sym.values()) + list(csym.values()): known |= consts_of(x)
    while progress and unresolved:
        progress = False; rest = []
        for s0, i0, nexts in unresolved:
            if any(cnum(x) > ctr0 and x not in known for n in nexts for x in consts_of(n)): f = None
            else: f = closed_form(self, st, backs, s0, i0, nexts, forms, k)
            if f is None: rest.append((s0, i0, nexts))
            else: forms[s0] = f; progress = True
        unresolved = rest
    if unresolved:
        raise Unsupported(f"{where}: no closed form for {[str(u[0]) for u in unresolved]} next {[str(u[2])[:200] for u in unresolved]}")
    def at(x, j): return subst(subst(x, [(s0, f) for s0, f in forms.items()]), [(k, j)])
    # ---- effects: writes at keys that vary with the iteration
    eff = {}
    for o in backs:
        d, _ = mem_diff(pre, o[1])
        cur = {}
        for t, c, ns, f0 in d:
            ws = []
            for n in reversed(ns):      # oldest first
                if n.kind == "pt" and (t, c, tuple(n.a)) in cells: continue
                if n.kind == "base": continue
                if n.kind != "pt": raise Unsupported(where + ": block write inside a loop")
                ws.append((tuple(at(x, k) for x in n.a), at(n.b, k)))
            if ws: cur[(t, c)] = ws
        if not eff: eff = cur
        elif not same_eff(eff, cur):
            raise Unsupported(where + ": paths through the body write differently")
    # ---- state at iteration k
    def make(stk, j):
        for (t, c, key) in cells:
            set_comp(stk, t, c, get_comp(get_t(stk, t), c).pt(key, at_c((t, c, key), j)))
            o = get_t(stk, t)
            if t[0] == "o" and c in ("i8", "i16", "i32", "i64"):
                if isc(key[0]): o.otypes.setdefault(key[0], c)
        for (t, c), ws in eff.items():
            fm = get_comp(get_t(st, t), c)
            fm = get_comp(get_t(stk, t), c)
            for wkey, wval in ws:
                inv = invert(self, stk, wkey, k)
                if inv is None: raise Unsupported(f"{where}: write position {wkey} not invertible")
                def cond(key, inv=inv, j=j):
                    jj, ok = inv(key); return And(ok, Le(0, jj), Lt(jj, j))
                def val(key, inv=inv, wval=wval):
                    jj, ok = inv(key); return subst(wval, [(k, jj)])
                fm = fm.rg(cond, val)
            set_comp(stk, t, c, fm)
    def at_c(ck, j): return subst(subst(csym[ck], [(s0, f) for s0, f in forms.items()]), [(k, j)])
    # ---- candidate invariants
    cands = []; conj = []; variants = []
    for o in backs:
        cs = [at(c, k) for c in o[1].pc[npc:]]
        conj.append(And(*[S(c) for c in cs]))
        for c in cs:
            for lo, hi, strict in atoms(c):
                # lo (<|!=) hi with exactly one side moving
                dl = step(lo, k); dh = step(hi, k)
                if dl is None or dh is None: continue
                dlt = dh - dl           # change of hi - lo per iteration
                if dlt < 0: variants.append((hi, lo)); cands.append(S(zi(lo) <= zi(hi)) if True else None)
                elif dlt > 0 and strict == "ne": variants.append((lo, hi)); cands.append(S(zi(hi) <= zi(lo)))
    pk = Or(*conj)
    if pk is not True: cands.insert(0, Or(Le(k, 0), subst(pk, [(k, Sub(k, 1))]) if not isinstance(pk, bool) else pk))
    for I in phis:
        if I.ty.kind == "int" and I.ty.w > 1:
            f = forms[sym[I.id]]
            cands.append(S(And(Le(0, f), Lt(f, 1 << I.ty.w))))
    for ck in cells:
        if ck[1] in ("i8", "i16", "i32", "i64"):
            f = at_c(ck, k); cands.append(S(And(Le(0, f), Lt(f, 1 << int(ck[1][1:])))))
        if ck[1] == "an": f = at_c(ck, k); cands.append(S(And(Le(0, f), Lt(f, 1 << 63))))
    for sq in self.seqs:
        cs, vs = sq.candidates(self, st, forms, k); cands += cs; variants += vs
    cands = [c for c in uniq(cands) if not isinstance(c, bool)]
    # base case and Houdini
    good = [c for c in cands if self.entailed(st, subst(c, [(k, 0)]))]
    facts = []
    for h in self.inv_extra: facts += h(self, st, k, forms)
    def start(silent):
        sk = st.copy(); sk.silent = st.silent or silent
        sk.pc.append(k >= 0)
        for c in good: sk.pc.append(c)
        ek = dict(env)
        for I in phis: ek[I.id] = at(sym[I.id], k)
        make(sk, k)
        return sk, ek
    while True:
        sk, ek = start(1)
        if not self.feasible(sk): break
        outs = body(self, fn, sk.copy(), dict(ek), b, region)
        bk = [o for o in outs if o[0] == "back"]
        bad = set()
        for o in bk:
            for c in good:
                if not self.entailed(o[1], subst(c, [(k, k + 1)])): bad.add(c.get_id())
        if not bad: break
        good = [c for c in good if c.get_id() not in bad]
    # ---- verifying run
    sk, ek = start(0)
    base = sk.copy()
    ctr = counter()
    outs = body(self, fn, sk, dict(ek), b, region)
    res = []
    # history: every completed iteration j<k satisfied the condition of some path back to the header
    hs = []
    for o in outs:
        if o[0] == "back":
            hs.append(And(*[c for c in o[1].pc[len(base.pc):] if isinstance(c, bool) or not any(cnum(x) > ctr for x in consts_of(c))]))
    hist = Or(*hs) if hs else True
    for o in outs:
        if o[0] != "back" and hist is not True:
            o[1].ghost["hist"] = o[1].ghost.get("hist", ()) + ((k, hist),)
    self.loop_log.append(f"{where}: {len(good)} invariants, {len(eff)} summarised maps, {len(forms)} closed forms")
    for o in outs:
        if o[0] != "back": res.append(o); continue
        s = o[1]
        nx = phi_next(self, o, phis)
        for I in phis:
            self.oblige(s, VEq(nx[I.id], at(sym[I.id], k + 1)), f"{where}: invariant preserved (induction variable)")
        want = st.copy(); make(want, k + 1)
        for t, o1 in targets(s):
            ow = get_t(want, t)
            if ow is None:
                if o1.name.startswith(("local", "@")) or not o1.live: continue
                self.oblige(s, False, f"{where}: heap objects are preserved"); continue
            if t[0] == "o" and ow.live != o1.live: self.oblige(s, False, f"{where}: {o1.name} stays allocated")
            cw = comps_of(ow, t); c1 = comps_of(o1, t)
            for c in set(cw) | set(c1):
                fa, fb = get_comp(ow, c), get_comp(o1, c)
                if fa is fb: continue
                if o1.name.startswith("local"): 
                    pass
                self.map_equal(s, fa, fb, c, f"{where}: invariant preserved (memory {o1.name}.{c})", t)
        for c in good: self.oblige(s, subst(c, [(k, k + 1)]), f"{where}: invariant preserved")
        # termination
        vs = list(variants)
        for c in o[1].pc[len(base.pc):]:
            for lo, hi, strict in atoms(c):
                dl, dh = step(lo, k), step(hi, k)
                if dl is not None and dh is not None and dh - dl < 0: vs.append((hi, lo))
        ok = any(self.entailed(s, Lt(at(lo, k), at(hi, k))) for hi, lo in vs) or terminating(self, s, k, forms)
        self.oblige(s, True if ok else False, f"{where}: terminates (variant decreases and is bounded)")
    return res

def counter():
    import terms
    return terms._n[0]
def cnum(x):
    n = str(x).rsplit("!", 1)
    return int(n[1]) if len(n) == 2 and n[1].isdigit() else 0

def same_eff(a, b):
    if set(a) != set(b): return False
    for x in a:
        if len(a[x]) != len(b[x]): return False
        for (k1, v1), (k2, v2) in zip(a[x], b[x]):
            if any(Eq(p, q) is not True for p, q in zip(k1, k2)) or VEq(v1, v2) is not True: return False
    return True

def terminating(self, s, k, forms):
    for h in getattr(self, "term_hooks", []):
        if h(self, s, k, forms): return True
    return False

def uniq(cs):
    seen = set(); r = []
    for c in cs:
        if isinstance(c, bool): continue
        if c.get_id() not in seen: seen.add(c.get_id()); r.append(c)
    return r

def rng(sp, x, ty):
    if ty.kind == "int" and ty.w > 1: sp.pc.append(z3.And(x >= 0, x < (1 << ty.w)))

def hint(self, sp, phis, init, sym):
    """probe only: a pointer phi whose next value keeps the object is assumed to stay in its initial object"""
    from engine import FAM0
    for I in phis:
        if I.ty.kind == "ptr":
            keep = True
            if isc(init[I.id].obj) and init[I.id].obj != 0 and stays(self, I):
                sp.pc.append(sym[I.id].obj == init[I.id].obj); continue
            for sq in self.seqs:
                if sq.hint(self, sp, sym[I.id], init[I.id]):
                    sym[I.id] = Ptr(sym[I.id].obj, init[I.id].off); break

def stays(self, I):
    """syntactic: is the phi updated only by pointer arithmetic on itself (probe heuristic only)"""
    seen = set()
    def ok(v):
        if v is I: return True
        if getattr(v, "kind", "") != "inst": return False
        if v.id in seen: return True
        seen.add(v.id)
        if v.op == "getelementptr": return ok(v.ops[0])
        if v.op == "phi": return all(ok(x) for _, x in v.inc)
        if v.op == "select": return ok(v.ops[1]) and ok(v.ops[2])
        return False
    n = 0
    vals = []
    for pb, v in I.inc:
        seen.clear()
        if ok(v): n += 1
    return n >= len(I.inc) - 1 and n >= 1

def step(x, k):
    """x(k+1)-x(k) if a constant"""
    if isc(x): return 0
    d = Sub(subst(x, [(k, k + 1)]), x)
    return d if isc(d) else None

def atoms(c):
    """(lo, hi, kind) comparisons lo<hi / lo!=hi implied by conjunct c"""
    if isinstance(c, bool): return []
    r = []
    def go(c, neg):
        if z3.is_and(c) and not neg:
            for x in c.children(): go(x, False)
        elif z3.is_or(c) and neg:
            for x in c.children(): go(x, True)
        elif z3.is_not(c): go(c.arg(0), not neg)
        elif z3.is_app(c) and c.num_args() == 2 and z3.is_int(c.arg(0)):
            a, b = c.arg(0), c.arg(1)
            kd = c.decl().kind()
            if kd == z3.Z3_OP_LE:
                if neg: r.append((b, a, "lt"))
                else: r.append((a, S(b + 1), "lt"))
            elif kd == z3.Z3_OP_GE:
                if neg: r.append((a, b, "lt"))
                else: r.append((b, S(a + 1), "lt"))
            elif kd == z3.Z3_OP_LT:
                if neg: r.append((b, S(a + 1), "lt"))
                else: r.append((a, b, "lt"))
            elif kd == z3.Z3_OP_GT:
                if neg: r.append((a, S(b + 1), "lt"))
                else: r.append((b, a, "lt"))
            elif kd == z3.Z3_OP_EQ and neg: r.append((a, b, "ne"))
            elif kd == z3.Z3_OP_DISTINCT and not neg: r.append((a, b, "ne"))
    go(c, False)
    for a, b, w in list(r):       # f(x) != f(y) suggests x != y (heuristic; every use is checked)
        if w == "ne" and all(isinstance(x, z3.ExprRef) and z3.is_app(x) and x.num_args() == 1 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in (a, b)) and a.decl().eq(b.decl()):
            r.append((a.arg(0), b.arg(0), "ne"))
    return [(a, b, w) for a, b, w in r]

def closed_form(self, st, backs, s0, i0, nexts, forms, k):
    """closed form of a loop-carried value in the iteration number k"""
    nexts = [n if not isinstance(n, z3.ExprRef) else S(n) for n in nexts]
    n0 = nexts[0]
    same = all(VEq(n, n0) is True for n in nexts)
    if not same: return None
    if isinstance(n0, z3.ExprRef) and n0.eq(s0): return i0
    if z3.is_int(s0):
        d = Sub(n0, s0)
        if isc(d): return Add(i0, Mul(d, k))
        cs = consts_of(d)
        if not any(c in cs for c in [s0]) and not (cs & loop_syms(backs, forms, cs)):
            pass
    # sequence successor
    for seq in self.seqs:
        f = seq.closed_form(self, st, s0, i0, n0, k)
        if f is not None: return f
    # value determined by already solved symbols: x(k) = k==0 ? init : n0(k-1)
    cs = consts_of(n0)
    if s0 not in cs:
        sol = [(c, forms[c]) for c in cs if c in forms]
        uns = [c for c in cs if str(c).startswith(("ph", "cell")) and c not in forms]
        if not uns:
            v = subst(subst(n0, sol), [(k, k - 1)])
            if VEq(v, i0) is True: return i0
            v0 = subst(v, [(k, z3.IntVal(0))])
            if VEq(v0, i0) is True: return v
            return If(k <= 0, i0, v)
    # invariant addend: next = s0 + c with c loop-invariant
    if z3.is_int(s0):
        d = Sub(n0, s0)
        if isinstance(d, z3.ExprRef):
            cs = consts_of(d)
            if not any(str(c).startswith(("ph", "cell")) for c in cs): return Add(i0, Mul(k, d))
    return None

def loop_syms(backs, forms, cs): return set()

def invert(self, st, wkey, k):
    """inverse of a write position: key -> (iteration, cond that key is on the orbit)"""
    for seq in self.seqs:
        g = seq.invert2(self, wkey, k)
        if g is not None: return g
    if len(wkey) == 1 or True:
        # try each component for an affine or sequence dependence on k
        for i, w in enumerate(wkey):
            if isc(w): continue
            d = Sub(subst(w, [(k, k + 1)]), w)
            if isc(d) and d != 0:
                w0 = subst(w, [(k, z3.IntVal(0))])
                def inv(key, i=i, w0=w0, d=d):
                    diff = Sub(key[i], w0) if d > 0 else Sub(w0, key[i])
                    a = abs(d)
                    j = diff if a == 1 else Div(diff, a)
                    ok = True if a == 1 else Eq(Mod(diff, a), 0)
                    for q, wq in enumerate(wkey):
                        if q != i: ok = And(ok, Eq(key[q], subst(wq, [(k, j)])))
                    return j, ok
                return inv
        for i, w in enumerate(wkey):
            if isc(w): continue
            for seq in self.seqs:
                g = seq.inverse(self, w, k)
                if g is not None:
                    def inv(key, i=i, g=g):
                        j, ok = g(key[i])
                        for q, wq in enumerate(wkey):
                            if q != i: ok = And(ok, Eq(key[q], subst(wq, [(k, j)])))
                        return j, ok
                    return inv
    return None

def lineof(b):
    import os
    for I in b.insts:
        if I.line: return f"{os.path.basename(I.line[0])}:{I.line[1]}"
    return f"block{b.idx}"
