"""Linked nodes as a ghost sequence: N(i) is the node at position i, idx its inverse (so nodes are pairwise distinct);
N(-1) and N(n) are the sentinels.  Node fields are total functions of the position."""
from spec import *
I_ = z3.IntSort()
class NSeq:
    kinds = 0
    def __init__(self, T, name, n, size, left, right, links, vals, heap=True):
        """links: {offset: +1|-1} pointer fields; vals: {offset: f(i)} opaque element fields (position -> value)"""
        e = T.e; self.T = T; self.name = name; self.n = n; NSeq.kinds += 1; self.k = NSeq.kinds; e.quantified()
        self.N = FFun(name + "_N", I_, I_); self.X = FFun(name + "_idx", I_, I_); self.left = left; self.right = right; self.dead = False
        i = z3.Int("qi"); N, X = self.N, self.X
        e.axiom(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(N(i) > FAM0, e.FK(N(i)) == self.k, X(N(i)) == i)), patterns=[N(i)]))
        e.axiom(N(zi(-1)) == left); e.axiom(N(zi(n)) == right)
        f = Fam(name, self.k, size, FM.base(lambda key: self.IN(key[0]))); T.st.fams[name] = f
        def po(key):
            for o, d in links.items():
                if isc(key[1]) and key[1] == o: return N(X(zi(key[0])) + d)
            if isc(key[1]): return UNINIT
            r = z3.IntVal(-1)
            for o, d in links.items(): r = If(Eq(key[1], o), N(X(zi(key[0])) + d), r)
            return r
        f.comps["po"] = FM.base(po); f.comps["pp"] = FM.base(lambda key: 0)
        for o in links: f.dtype[o] = "p"
        f.comps["alive"] = FM.base(lambda key: And(Or(*[Eq(key[1], o) for o in vals]), self.IN(key[0])))
        def val(key):
            for o, g in vals.items():
                if isc(key[1]) and key[1] == o: return g(X(zi(key[0])))
            r = z3.IntVal(-1)
            for o, g in vals.items(): r = If(Eq(key[1], o), g(X(zi(key[0]))), r)
            return r
        f.comps["val"] = FM.base(val)
        e.seqs = e.seqs + [self]
    def IN(self, id): x = self.X(zi(id)); return And(InRange(0, x, self.n), self.N(x) == zi(id))
    def at(self, i): return self.N(zi(i))
    # ---- loop rule hooks
    def pos(self, obj):
        """position denoted by a pointer value"""
        if isc(obj): return -1 if obj == self.left else self.n if obj == self.right else None
        if z3.is_app(obj) and obj.decl().eq(self.N): return S(obj.arg(0))
        return None
    def hint(self, e, sp, x, i0):
        if not isinstance(i0, Ptr) or (isc(i0.obj) and not (i0.obj == self.left and self.left != 0)) or self.pos(i0.obj) is None: return False
        j = FInt("hj"); sp.pc.append(z3.And(x.obj == self.N(j), j >= -1, j <= zi(self.n))); sp.pc.append(zb(Eq(x.off, i0.off))); return True
    def step(self, s0, n0):
        if not (isinstance(n0, z3.ExprRef) and z3.is_app(n0) and n0.decl().eq(self.N)): return None
        d = Sub(n0.arg(0), self.X(s0)) if z3.is_int(s0) else None
        return d if isc(d) else None
    def closed_form(self, e, st, s0, i0, n0, k):
        d = self.step(s0, n0); p = self.pos(i0)
        if d is None or p is None: return None
        return self.N(zi(Add(p, Mul(d, k))))
    def occ(self, x, acc):
        if isinstance(x, Ptr): self.occ(x.obj, acc)
        elif isinstance(x, z3.ExprRef):
            st = [x]
            while st:
                t = st.pop()
                if z3.is_app(t):
                    if t.num_args() and t.decl().eq(self.N): acc[t.arg(0).get_id()] = t.arg(0)
                    st.extend(t.children())
    def candidates(self, e, st, forms, k):
        acc = {}; cs = []; vs = []
        for f in forms.values(): self.occ(f, acc)
        for a in acc.values():
            cs += [S(z3.And(a >= -1, a <= zi(self.n)))]; vs += [(zi(self.n), a), (a, zi(-1))]
        return cs, vs
    def inverse(self, e, w, k):
        p = self.pos(w)
        if p is None or isc(w): return None
        d = Sub(subst(p, [(k, k + 1)]), p)
        if not isc(d) or d not in (1, -1): return None
        p0 = subst(p, [(k, z3.IntVal(0))])
        def g(key):
            x = self.X(zi(key)); return (Sub(x, p0) if d == 1 else Sub(p0, x)), And(self.IN(key))
        return g
    def invert2(self, e, wkey, k): return None
    def touch(self, e, st, key): pass
