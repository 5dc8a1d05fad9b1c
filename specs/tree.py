"""Contracts of the red-black search trees inside cest::set and cest::map.

Keys are opaque; the comparator is any strict weak ordering, represented by a rank function RK (cmp(a,b) iff
RK(a) < RK(b)); each call is counted.  A tree is described by ghost functions of the node: IN (membership), L R P C (the
fields), LO HI (the open rank interval a subtree may use) and BH (black nodes on every path down).  The well-formedness
conditions are local to a node and its neighbours, plus one condition on pairs of nodes (intervals are nested or disjoint):
they are instantiated at the node terms a proof mentions, so every query is quantifier free."""
from spec import *
from terms import *
import contextlib, re
I_ = z3.IntSort(); B_ = z3.BoolSort()
RK = z3.Function("RK", I_, I_); RQ = z3.Function("RQ", I_, I_)
ZA, ZB = z3.Ints("za zb")
class Ep:
    """one valid tree region: ghost functions, the facts about them, and the node terms they are instantiated at"""
    n = 0
    def __init__(s, D, nm, top, p, lo, hi, IN, guard=True, exempt=False):
        Ep.n += 1; s.num = Ep.n; nm = f"{nm}{Ep.n}"; s.D = D; s.top = top; s.p = p; s.lo = lo; s.hi = hi; s.inn = IN; s.g = guard; s.exempt = exempt
        f = lambda x: z3.Function(f"{nm}_{x}", I_, I_)
        s.L, s.R, s.P, s.C, s.LO, s.HI, s.BH = [f(x) for x in ("L", "R", "P", "C", "LO", "HI", "BH")]
        s.done = {}; s.anch = {}; s.min = None; s.tpl = s.ptpl = None
    def IN(s, z): return s.inn(zi(z))
    def fact(s, *fs):
        for f in fs:
            if f is not True: s.D.e.axiom(Implies(s.g, f))
    def ty(s, z): return And(s.IN(z), Lt(FAM0, z), Eq(s.D.e.FK(zi(z)), s.D.k))
    def touch(s, z):
        """the well-formedness conditions at node term z"""
        if isc(z): 
            if z < FAM0: return
        z = zi(z)
        if z.get_id() in s.done or s.later(z): return
        s.done[z.get_id()] = z; D = s.D
        if s.tpl is None: s.tpl = s.local(ZA)
        D.e.axioms.append(z3.substitute(s.tpl, (ZA, z)))
        if s.min is not None: s.fact(Implies(s.IN(z), And(Ne(s.min, 0), D.rk(s.min) <= D.rk(z))))
        for a in list(s.anch.values()): s.pair(a, z)
    def later(s, z):
        """the term names a node through the links of a later tree: this tree's facts about it are not needed"""
        c = s.D.lcache.get(z.get_id())
        if c is None:
            c = max([int(m.group(1)) for ap in uf_apps(z) for m in [re.fullmatch(r".*?(\d+)_[LRP]", ap.decl().name())] if m] or [0]); s.D.lcache[z.get_id()] = (c, z)
        else: c = c[0]
        return c > s.num
    def local(s, z):
        D = s.D; L, R, P, C, LO, HI, BH = [f(z) for f in (s.L, s.R, s.P, s.C, s.LO, s.HI, s.BH)]; rk = D.rk(z)
        def child(c, lo, hi):
            return Or(Eq(c, 0), And(s.ty(c), s.P(c) == z, s.LO(c) == lo, s.HI(c) == hi, lo < D.rk(c), D.rk(c) < hi, s.BH(c) >= 0, Or(s.C(c) == D.RED, s.C(c) == D.BLACK)))
        bl = z3.If(L == 0, 0, s.BH(L)); br = z3.If(R == 0, 0, s.BH(R))
        red = lambda c: And(c != 0, s.C(c) == D.RED)
        ex = And(z == zi(s.top), s.exempt)
        return zb(Implies(s.g, Implies(s.IN(z), And(zi(s.top) != 0, s.ty(z), LO < rk, rk < HI, zi(s.lo) <= LO, HI <= zi(s.hi), Or(C == D.RED, C == D.BLACK), child(L, LO, rk), child(R, rk, HI),
            bl == br, BH == bl + z3.If(C == D.BLACK, 1, 0), bl >= 0, Implies(And(C == D.RED, Not(ex)), And(Not(red(L)), Not(red(R)))),
            Or(And(z == zi(s.top), P == zi(s.p), LO == zi(s.lo), HI == zi(s.hi)), And(z != zi(s.top), s.ty(P), Or(And(s.L(P) == z, HI == D.rk(P), LO == s.LO(P)), And(s.R(P) == z, LO == D.rk(P), HI == s.HI(P)))))))))
    def anchor(s, z):
        """a node term whose relation to every other term matters"""
        z = zi(z); s.touch(z)
        if z.get_id() in s.anch or isc(S(z)) or s.later(z): return
        for b in list(s.done.values()): s.pair(z, b)
        s.anch[z.get_id()] = z
    def pair(s, a, b):
        if a.eq(b): return
        if s.ptpl is None: s.ptpl = s.between(ZA, ZB)
        s.D.e.axioms.append(z3.substitute(s.ptpl, (ZA, a), (ZB, b)))
    def between(s, a, b):
        D = s.D; ra, rb = D.rk(a), D.rk(b); both = And(s.IN(a), s.IN(b), a != b)
        return zb(Implies(s.g, Implies(both, And(ra != rb, Implies(ra < rb, tri(ra, s.LO(a), s.HI(a), rb, s.LO(b), s.HI(b))), Implies(rb < ra, tri(rb, s.LO(b), s.HI(b), ra, s.LO(a), s.HI(a))),
            Implies(And(rb < ra, s.LO(a) < rb), s.L(a) != 0), Implies(And(ra < rb, rb < s.HI(a)), s.R(a) != 0), Implies(And(ra < rb, s.LO(b) < ra), s.L(b) != 0), Implies(And(rb < ra, ra < s.HI(b)), s.R(b) != 0)))))
def tri(ra, la, ha, rb, lb, hb):
    """ra < rb: b in a's right subtree, or a in b's left subtree, or disjoint"""
    return Or(And(rb < ha, ra <= lb, hb <= ha), And(lb < ra, ha <= rb, lb <= la), ha <= lb)

class Dom:
    """the node family and layout of one container"""
    nfam = 0
    def __init__(D, T, kind, name="tree"):
        D.T = T; D.e = e = T.e; Dom.nfam += 1; D.k = Dom.nfam; D.kind = kind; D.name = name; c = T.cval
        D.sz, D.oroot, D.obegin, D.osize = [c("S_" + x) for x in ("sizeof", "root", "begin", "size")]
        D.nsz, D.okey, D.oval, D.ol, D.orr, D.op, D.oc = [c("N_" + x) for x in ("sizeof", "key", "val", "l", "r", "p", "c")]
        D.RED, D.BLACK = c("c_red"), c("c_black"); D.inode = c("I_node"); D.map = kind == "map"
        D.V = z3.Function(f"{name}_key", I_, I_); D.W = z3.Function(f"{name}_val", I_, I_)
        D.eps = []; D.lcache = {}
    def rk(D, z): return RK(D.V(zi(z)))
    def install(D):
        e = D.e; e.solver.set("auto_config", False); e.solver.set("smt.case_split", 3); e.pool = []
        lib.install_elem(e, "E")
        if D.map: lib.install_elem(e, "M")
        X = lib.Elem("E"); Qe = lib.Elem("Q")
        cnt = e.new_obj(D.T.st, "comparisons", 8); D.cnt = cnt.id; D.cnt0 = FInt("ncmp"); cnt.comps["i64"] = FM.base().pt((0,), D.cnt0); cnt.otypes[0] = "i64"; D.T.assume(Le(0, D.cnt0))
        def cmp(kinds):
            def h(e, st, fn, a, I):
                w = e.loc(I); r = []
                for kd, p in zip(kinds, a[1:]):
                    L, v = (X if kd == "E" else Qe).need(e, st, p, w + "compared key: "); r.append((RK if kd == "E" else RQ)(zi(v)))
                D.bump(st, 1); return S(r[0] < r[1])
            return h
        for ks in ("EE", "QE", "EQ"): e.externs.append((re.compile(r"Cmp::operator\(\)\(%s const&, %s const&\) const" % tuple(ks)), cmp(ks)))
        D.T.done_externs()
    def count(D, st): return D.e.fm_read(st, st.mem[D.cnt].comps["i64"], (0,), None)
    def bump(D, st, k): o = st.wobj(D.cnt); v = Add(D.count(st), k); o.comps["i64"] = o.comps["i64"].pt((0,), v)
    # ------------------------------------------------ the pre-state tree
    def pre(D, top, p, lo, hi, outside=False):
        """a valid tree as the initial contents of the node family"""
        e = D.e; T = D.T; IN = z3.Function(D.name + "_IN", I_, B_)
        E0 = Ep(D, D.name, top, p, lo, hi, lambda z: IN(z)); D.E0 = E0; D.eps = [E0]; D.OUT = z3.Function(D.name + "_OUT", I_, B_) if outside else None
        live = lambda z: Or(E0.IN(z), D.OUT(zi(z))) if outside else E0.IN(z)
        def fld(key):
            z, o = key; E0.touch(z)
            if not isc(o): raise Unsupported("node access at a symbolic offset")
            f = {D.ol: E0.L, D.orr: E0.R, D.op: E0.P}.get(o)
            return UNINIT if f is None else ("INIT", E0.IN(z), f(zi(z))) if outside else f(zi(z))
        def col(key):
            E0.touch(key[0]); return UNINIT if key[1] != D.oc else ("INIT", E0.IN(key[0]), E0.C(zi(key[0]))) if outside else E0.C(zi(key[0]))
        def lv(key): E0.touch(key[0]); return live(key[0])
        f = Fam(D.name, D.k, D.nsz, FM.base(lv)); T.st.fams[D.name] = f; D.fam = D.name
        f.comps["po"] = FM.base(fld); f.comps["pp"] = FM.base(lambda key: 0); f.comps["i32"] = FM.base(col)
        offs = [D.okey] + ([D.oval] if D.map else [])
        f.comps["alive"] = FM.base(lambda key: And(Or(*[Eq(key[1], o) for o in offs]), lv(key)))
        f.comps["val"] = FM.base(lambda key: D.W(zi(key[0])) if D.map and isc(key[1]) and key[1] == D.oval else D.V(zi(key[0])) if isc(key[1]) else If(Eq(key[1], D.okey), D.V(zi(key[0])), D.W(zi(key[0]))))
        f.dtype.update({D.ol: "p", D.orr: "p", D.op: "p", D.oc: "i32"})
        f.fixed = tuple(sorted({D.ol, D.orr, D.op, D.oc, D.okey, D.oval}))
        D.base = dict(f.comps); D.base["#live"] = f.live
        T.assume(Lt(lo, hi)); T.assume(Or(Eq(top, 0), And(E0.ty(top), lo < D.rk(top), D.rk(top) < hi, E0.P(zi(top)) == zi(p), E0.LO(zi(top)) == lo, E0.HI(zi(top)) == hi)))
        if not isc(top): E0.anchor(top)
        return E0
    def container(D, name="S", tree=True):
        """a valid container object: root, smallest-element cache, size"""
        T = D.T; o = T.struct(name, D.sz); T.S_ = o.id
        top = FInt("root"); lo = FInt("LOW"); hi = FInt("HIGH"); E0 = D.pre(top, 0, lo, hi); D.mb0 = FInt("mbegin"); D.n0 = T.int("size")
        T.assume(Lt(D.n0, lib.MAXSZ // 32))
        T.assume(And(Eq(Eq(top, 0), Eq(D.mb0, 0)), Eq(Eq(top, 0), Eq(D.n0, 0)), Or(Eq(top, 0), E0.C(top) == D.BLACK), Or(Eq(D.mb0, 0), E0.ty(D.mb0)), Or(Eq(top, 0), E0.BH(top) >= 1)))
        E0.min = D.mb0; E0.touch(D.mb0); E0.done.pop(zi(top).get_id(), None); E0.anch.pop(zi(top).get_id(), None); E0.anchor(top)
        T.set_cell(o, D.oroot, "p", Ptr(top, 0)); T.set_cell(o, D.obegin, "p", Ptr(D.mb0, 0)); T.set_cell(o, D.osize, "i64", D.n0)
        return Ptr(o.id, 0)
    # ------------------------------------------------ helpers
    @contextlib.contextmanager
    def scope(D):
        """facts instantiated inside do not burden later queries"""
        e = D.e; n = len(e.axioms); eps = list(D.eps); save = [(ep, dict(ep.done), dict(ep.anch)) for ep in eps]
        try: yield
        finally:
            D.eps = eps
            for ep, d, a in save: ep.done = d; ep.anch = a
            if len(e.axioms) != n:
                del e.axioms[n:]; e._dcache.clear()
                for m in e.pool: m[2] = min(m[2], n)
                e.solver.reset(); e.solver.set("timeout", e.timeout); e.stack = []; e.ax_levels = [0]; e.ax_done = 0
    def post(D, outs, f):
        def g(s, rv):
            with D.scope():
                try: f(s, rv)
                except Dead:
                    if D.e.feasible(s): raise
        D.T.post(outs, g)
    def each(D, st, f):
        def g(s):
            with D.scope():
                try: f(s)
                except Dead:
                    if D.e.feasible(s): raise
        D.T.each(st, g)
    def bh(D, ep, z): return If(Eq(z, 0), 0, ep.BH(zi(z)))
    def ht(D, ep, z): return If(Eq(z, 0), 0, Add(2 * ep.BH(zi(z)), If(Eq(ep.C(zi(z)), D.RED), 1, 0)))
    def rd(D, st, z, off, c="po", why=None):
        """field of node z in the current memory"""
        z = S(z) if not isc(z) else z
        for ep in D.eps: ep.touch(z)
        if isc(z):
            r = D.e.resolve(st, Ptr(z, off), 8 if c == "po" else 4, "post: node", check=False)
            return D.e.fm_read(st, r[1].comp(c), (r[2],), why)
        for o in D.news(st):
            d = D.e.decide(st, Eq(z, o.id))
            if d is None: raise Fork([Eq(z, o.id), Ne(z, o.id)])
            if d: return D.rd(st, o.id, off, c, why)
        return D.e.fm_read(st, st.fams[D.fam].comp(c), (z, off), why)
    def changed(D, st):
        """family node ids written individually since the pre-state, and whether a subtree was replaced"""
        f = st.fams[D.fam]; ids = {}
        for c in ("po", "pp", "i32"):
            n = f.comp(c)
            while n.kind != "base":
                if n.kind == "pt": z = S(n.a[0]); ids[zi(z).get_id()] = z
                n = n.parent
        return list(ids.values())
    def same_tree(D, st, why, within=None):
        """the node memory is as in the pre-state"""
        f = st.fams[D.fam]; e = D.e
        if all((f.live if c == "#live" else f.comp(c)) is b for c, b in D.base.items()): e.oblige(st, True, why); return
        def one(s):
            z = FInt("key"); [ep.anchor(z) for ep in D.eps]
            if within is not None: e.assume(s, within((z,)))
            if not e.feasible(s): return
            for c, b in D.base.items():
                now = f.live if c == "#live" else f.comp(c)
                if now is b: continue
                offs = {"po": (D.ol, D.orr, D.op), "pp": (D.ol, D.orr, D.op), "i32": (D.oc,), "#live": (None,)}.get(c, (D.okey, D.oval) if D.map else (D.okey,))
                for o in offs:
                    k = (z,) if o is None else (z, o); x, y = e.fm_read(s, b, k, None), e.fm_read(s, now, k, None)
                    if x is UNINIT and y is UNINIT: continue
                    e.oblige(s, False if x is UNINIT or y is UNINIT else Eq(x, y), f"{why} ({c})")
        D.each(st, one)
    # ------------------------------------------------ the verified postcondition: a valid tree under the slot
    def check(D, st, top, p, lo, hi, IN, cases, bh, exempt, why, order="order: ", bal="balance: "):
        """the current memory holds, under top, a valid tree whose nodes are exactly IN.  cases: [(condition(z), ep)] tells which
        ghost functions describe a node that was not written individually"""
        T, e = D.T, D.e; must = lambda s, c, n: T.must(s, c, f"{why}: {n}")
        news = [o for o in D.news(st)]
        dirty = [z for z in D.changed(st)] + [o.id for o in news]
        for d in dirty:
            for ep in D.eps: ep.anchor(d)
        wit = []      # (id, lo, hi, parent)
        def null(z):
            d = e.decide(st, Eq(z, 0))
            if d is None: raise Fork([Eq(z, 0), Ne(z, 0)])
            return d
        def find(z):
            for d in dirty:
                x = e.decide(st, Eq(z, d))
                if x is None: raise Fork([Eq(z, d), Ne(z, d)])
                if x: return d
            return None
        BHd = []
        def explore(z, lo, hi, par):
            if e.decide(st, Eq(z, 0)) is True: return 0
            for ep in D.eps: ep.anchor(z)
            d = find(z)
            if d is None: return ("leaf", z)          # possibly null
            if any(w[0] is d for w in wit): must(st, False, order + "no node is reachable twice"); raise Dead()
            k = len(wit); wit.append((d, lo, hi, par)); BHd.append(None)
            l, r = D.rd(st, d, D.ol), D.rd(st, d, D.orr)
            if l is UNINIT or r is UNINIT: must(st, False, order + "child links are initialised"); raise Dead()
            a = explore(l, lo, D.rkx(st, d), d); explore(r, D.rkx(st, d), hi, d)
            BHd[k] = Add(ghost_bh(a), If(Eq(D.rd(st, d, D.oc, "i32"), D.BLACK), 1, 0)); 
            return ("d", k)
        def ghost_bh(a):
            if isc(a): return 0
            return If(Eq(a[1], 0), 0, epf(a[1], "BH")) if a[0] == "leaf" else BHd[a[1]]
        def epf(z, f):
            r = None
            for c, ep in reversed(cases): v = getattr(ep, f)(zi(z)); r = v if r is None else If(c(z), v, r)
            return r
        explore(top, lo, hi, p)
        def gf(z, f, i):
            r = epf(z, f)
            for k, w in enumerate(wit): r = If(Eq(z, w[0]), BHd[k] if f == "BH" else w[i], r)
            return r
        LO = lambda z: gf(z, "LO", 1); HI = lambda z: gf(z, "HI", 2); BH = lambda z: gf(z, "BH", 0)
        visited = [w[0] for w in wit]
        for d in dirty:
            if not any(d is v for v in visited): must(st, Not(IN(d)), order + "a written node outside the tree is not one of its nodes")
        if null(top): must(st, Not(IN(FInt("any"))), order + "an empty subtree has no nodes")
        def colour(s, z): return D.rd(s, z, D.oc, "i32", "post: colour")
        def red(s, z):
            d = e.decide(s, Eq(z, 0))
            if d is None: raise Fork([Eq(z, 0), Ne(z, 0)])
            return False if d else Eq(colour(s, z), D.RED)
        def node(s, z, skol, par=None):
            """local conditions at z in the final memory"""
            rk = D.rkx(s, z); l, r = D.rd(s, z, D.ol, "po", "post: left link"), D.rd(s, z, D.orr, "po", "post: right link"); c = colour(s, z); P = D.rd(s, z, D.op, "po", "post: parent link")
            lz, hz = LO(z), HI(z)
            must(s, And(Lt(lz, rk), Lt(rk, hz), Le(lo, lz), Le(hz, hi)), order + "key lies between its bounds")
            for ch, a, b, nm in ((l, lz, rk, "left"), (r, rk, hz, "right")):
                d = e.decide(s, Eq(ch, 0))
                if d is True: continue
                if d is None: raise Fork([Eq(ch, 0), Ne(ch, 0)])
                for ep in D.eps: ep.anchor(ch)
                must(s, IN(ch), order + f"{nm} child is a node of the tree")
                must(s, Eq(D.rd(s, ch, D.op, "po", "post: parent link of child"), z), order + f"{nm} child links back to its parent")
                must(s, And(Eq(LO(ch), a), Eq(HI(ch), b)), order + f"{nm} child's keys lie on its side")
            must(s, Or(Eq(c, D.RED), Eq(c, D.BLACK)), bal + "colour is red or black")
            must(s, And(Eq(If(Eq(l, 0), 0, BH(l)), If(Eq(r, 0), 0, BH(r))), Eq(BH(z), Add(If(Eq(l, 0), 0, BH(l)), If(Eq(c, D.BLACK), 1, 0)))), bal + "both subtrees have equal black height")
            must(s, Implies(And(Eq(c, D.RED), Not(And(exempt, Eq(z, top)))), And(Not(red(s, l)), Not(red(s, r)))), bal + "a red node has no red child")
            if not skol: must(s, Eq(P, par), order + "parent link")
            else: 
                d = e.decide(s, Eq(z, top))
                if d is None: raise Fork([Eq(z, top), Ne(z, top)])
                if d: must(s, Eq(P, p), order + "parent link of the root")
                else:
                    must(s, And(Ne(P, 0), IN(P)), order + "parent is a node of the tree")
                    for ep in D.eps: ep.anchor(P)
                    must(s, Or(Eq(D.rd(s, P, D.ol, "po", "post: link"), z), Eq(D.rd(s, P, D.orr, "po", "post: link"), z)), order + "parent links to the node")
            must(s, And(Eq(D.rdpp(s, z, D.ol), 0), Eq(D.rdpp(s, z, D.orr), 0), Eq(D.rdpp(s, z, D.op), 0)), order + "links point to whole nodes")
        must(st, Eq(If(Eq(top, 0), 0, BH(top)), bh), bal + "black height of the subtree")
        for w in wit:
            must(st, IN(w[0]), order + "reachable node is one of the expected nodes")
            D.each(st, lambda s, w=w: node(s, w[0], False, w[3]))
        if not null(top) and not any(e.entailed(st, Eq(top, v)) for v in visited):
            must(st, And(IN(top), Eq(D.rd(st, top, D.op, "po", "post: parent"), p), Eq(LO(top), lo), Eq(HI(top), hi)), order + "top node")
        for c, ep in cases:
            z = FInt("z"); s = st.copy()
            try: e.assume(s, And(IN(z), *[Ne(z, d) for d in visited])); e.assume(s, c(z)); e.assume(s, And(*[Not(c2(z)) for c2, ep2 in cases[:[x[1] for x in cases].index(ep)]]))
            except Dead: continue
            for x in D.eps: x.anchor(z)
            if not e.feasible(s): continue
            D.each(s, lambda s, z=z: node(s, z, True))
        z, w = FInt("z"), FInt("w"); s = st.copy()
        try: e.assume(s, And(IN(z), IN(w), Ne(z, w)))
        except Dead: return
        for x in D.eps: x.anchor(z); x.anchor(w)
        def pairs(s):
            rz, rw = D.rkx(s, z), D.rkx(s, w)
            must(s, Ne(rz, rw), order + "no two nodes hold equivalent keys")
            s1 = s.copy(); e.assume(s1, Lt(rz, rw))
            if e.feasible(s1): must(s1, tri(zi(rz), zi(LO(z)), zi(HI(z)), zi(rw), zi(LO(w)), zi(HI(w))), order + "subtrees nest or are disjoint")
            l, r = D.rd(s, z, D.ol), D.rd(s, z, D.orr)
            must(s, And(Implies(And(Lt(rw, rz), Lt(LO(z), rw)), Ne(l, 0)), Implies(And(Lt(rz, rw), Lt(rw, HI(z))), Ne(r, 0))), order + "every node is reachable on its side")
        if e.feasible(s): D.each(s, pairs)
    def rdpp(D, st, z, off):
        v = D.rd(st, z, off, "pp"); return 0 if v is UNINIT else v
    def rkx(D, st, z):
        """rank of the key stored in node z (the key cell of a node created by the code under contract)"""
        if not isc(z):
            for o in D.news(st):
                d = D.e.decide(st, Eq(z, o.id))
                if d is None: raise Fork([Eq(z, o.id), Ne(z, o.id)])
                if d: z = o.id
        if isc(z):
            o = st.mem.get(z)
            if o is not None: 
                v = D.e.fm_read(st, o.comp("val"), (D.okey,), None)
                return RK(zi(v)) if v is not UNINIT else D.rk(z)
        return D.rk(z)
    def news(D, st): return [o for id, o in st.mem.items() if o.heap and o.live and id not in D.T.st.mem]

# ---------------------------------------------------------------- contracts of the recursive helpers
def params(fn):
    """kinds of the arguments of a member function: 'slot' (node*&), 'node' (node*) or None; index 0 is the object"""
    s = fn.dem; s = re.sub(r"\)\s*const$", ")", s); d = 0; i = len(s) - 1
    while i >= 0:
        if s[i] == ")": d += 1
        elif s[i] == "(":
            d -= 1
            if d == 0: break
        i -= 1
    body = s[i + 1:-1]; r = [None]; d = 0; cur = ""
    for ch in body + ",":
        if ch == "," and d == 0:
            c = cur.strip(); r.append("slot" if re.search(r"::node\*&$", c) else "node" if re.search(r"::node( const)?\*$", c) else None); cur = ""; continue
        d += ch in "<(["; d -= ch in ">)]"; cur += ch
    return r
def recursive(e, fn):
    if fn.decl: return False
    c = e.__dict__.setdefault("_recs", {})
    if fn.name not in c:
        e.m.body(fn); c[fn.name] = any(I.op in ("call", "invoke") and I.callee.kind in ("func", "alias") and e.m.aliases.get(I.callee.name, I.callee.name) == fn.name for b in fn.blocks for I in b.insts)
    return c[fn.name]
class Insertion:
    """ins(slot, p): the subtree under slot is a valid tree of keys in (lo, hi) with parent p, and lo < value < hi.
    Either a node holds an equivalent key: ret_node denotes it and nothing else changes; or one new node holding value is
    linked in, added is set, size grows by one and the smallest-element cache is updated; the subtree is again valid with the
    same black height, except that its top, when it was red before, may have a red child.  At most 2*(2*bh+[red])+1 comparisons."""
    def __init__(s, D, mode): s.D = D; s.mode = mode; s.cap = []; s.res = {}; D.e.contracts.insert(0, (re.compile(r".*cest::(set|map)<.*"), s.hook))
    def hook(s, e, st, fn, a, I):
        if fn.decl or "node*&" not in fn.dem: return None
        ks = params(fn)
        if len(ks) != len(a) or "slot" not in ks or not recursive(e, fn): return None
        if s.mode == "body" and not s.cap:
            s.cap.append((st.copy(), fn, list(a), ks)); raise Dead()
        return s.apply(e, st, fn, a, I, ks)
    def cells(s, st, a, ks):
        """the variables the recursion reports through: flag, result pointer, inserted value"""
        D = s.D; objs = {}; todo = [(x, 0) for x, k in zip(a, ks) if isinstance(x, Ptr) and k is None]
        while todo:
            p, d = todo.pop()
            if not isc(p.obj) or p.obj not in st.mem or p.obj in objs or p.obj == D.T.S_: continue
            o = st.mem[p.obj]; objs[p.obj] = o
            for f, c in sorted(o.otypes.items()):
                if c == "p" and d < 2 and o.size > 8 or (c == "p" and d == 0):
                    x = D.e.fm_read(st, o.comp("po"), (f,), None)
                    if isc(x) and x: todo.append((Ptr(x, 0), d + 1))
        flag = [i for i, o in objs.items() if o.size == 1 and "alive" not in o.comps]; ret = [i for i, o in objs.items() if o.size == 8 and "alive" not in o.comps]
        val = [i for i, o in objs.items() if "alive" in o.comps]
        if len(flag) != 1 or len(ret) != 1 or len(val) != 1: raise Unsupported("the recursion's result variables are not recognised")
        return flag[0], ret[0], val[0]
    def value(s, e, st, id, w):
        D = s.D; X = lib.Elem("E"); L, v = X.need(e, st, Ptr(id, 0), w)
        return v, (X.need(e, st, Ptr(id, D.oval - D.okey), w)[1] if D.map else None)
    def apply(s, e, st, fn, a, I, ks):
        D = s.D; E0 = D.E0; w = e.loc(I) + "recursive insertion: "; slot = a[ks.index("slot")]; p = a[ks.index("node")] if "node" in ks else None
        flag, ret, val = s.cells(st, a, ks); v, wv = s.value(e, st, val, w); q = RK(zi(v))
        e.oblige(st, Eq(e.fm_read(st, st.mem[flag].comp("i8"), (0,), w), 0), w + "nothing was added before")
        r = e.resolve(st, slot, 8, w)
        if r[0] == "o":
            if s.mode != "top" or r[1].id != D.T.S_ or not Eq(r[2], D.oroot) is True: raise Unsupported(w + "recursion on an unknown link")
            t = E0.top; lo, hi, par = E0.lo, E0.hi, 0
            now = e.fm_read(st, r[1].comp("po"), (r[2],), w)
        else:
            z = r[2]; off = r[3]
            if off not in (D.ol, D.orr): raise Unsupported(w + "recursion on a field that is no child link")
            E0.anchor(z); e.oblige(st, E0.IN(z), w + "link belongs to a node of the tree"); par = z; rz = D.rk(z)
            t, lo, hi = (E0.L(zi(z)), E0.LO(zi(z)), rz) if off == D.ol else (E0.R(zi(z)), rz, E0.HI(zi(z)))
            now = e.fm_read(st, r[1].comp("po"), (z, off), w)
            e.oblige(st, And(Le(E0.lo, lo), Le(hi, E0.hi), Lt(Sub(hi, lo), Sub(E0.hi, E0.lo))), w + "recursion descends (termination)")
        E0.anchor(t)
        e.oblige(st, Eq(now, t), w + "the subtree has not been modified before")
        if p is not None: e.oblige(st, And(Eq(p.obj, par), Eq(p.off, 0)), w + "order: parent argument is the owner of the link")
        e.oblige(st, And(Lt(lo, q), Lt(q, hi)), w + "order: the key belongs into this subtree")
        sub = lambda z: And(E0.IN(z), Lt(lo, D.rk(z)), Lt(D.rk(z), hi))
        mb = e.fm_read(st, st.mem[D.T.S_].comp("po"), (D.obegin,), w); e.oblige(st, Or(Eq(mb, 0), E0.IN(mb), Le(D.rk(mb), lo), Le(hi, D.rk(mb))), w + "the smallest-element cache denotes a node")
        D.same_tree(st, w + "the subtree has not been modified before", within=lambda key: (E0.anchor(key[0]), sub(key[0]))[1])
        outs = Outs(); bound = If(Eq(t, 0), 1, Add(Mul(2, D.ht(E0, t)), 1))
        if e.may_fail:                                   # no storage for the new node: nothing has changed
            s3 = st.copy(); c = FInt("cmps"); e.assume(s3, Le(0, c)); D.bump(s3, c); s3.ghost["ins"] = ("failed",); outs.append(("throw", s3, "bad_alloc"))
        s1 = st.copy()
        try:                                             # an equivalent key is present
            y = FInt("found"); E0.anchor(y); e.assume(s1, And(E0.ty(y), sub(y))); e.assume(s1, Eq(D.rk(y), q)); e.assume(s1, Ne(t, 0))
            D.setp(s1, ret, 0, y); c = FInt("cmps"); e.assume(s1, And(Le(0, c), Le(c, bound))); D.bump(s1, c); s1.ghost["ins"] = ("present", y)
            if e.feasible(s1): outs.append(("ret", s1, None))
        except Dead: pass
        s2 = st.copy()
        try:
            nu = FInt("new"); g = FBool("ep"); top = FInt("top"); inn = lambda z: Or(zi(z) == nu, sub(z))
            tn = t if isinstance(t, z3.ExprRef) else None
            e.assume(s2, And(g, Lt(FAM0, nu), Eq(e.FK(nu), D.k), Not(E0.IN(nu)), D.V(nu) == zi(v), Lt(FAM0, top), Eq(e.FK(top), D.k)))
            if D.OUT is not None: e.assume(s2, Not(D.OUT(nu)))
            if D.map: e.assume(s2, D.W(nu) == zi(wv))
            was_red = And(Ne(t, 0), Eq(E0.C(zi(t)), D.RED))
            E1 = Ep(D, D.name + "x", top, par, lo, hi, inn, g, was_red); D.eps = D.eps + [E1]
            E0.touch(nu)
            e.assume(s2, And(inn(top), E1.BH(top) == zi(D.bh(E0, t)), Implies(was_red, E1.C(top) == D.RED), E1.P(top) == zi(par), E1.LO(top) == lo, E1.HI(top) == hi, Implies(Eq(t, 0), And(top == nu, E1.C(top) == D.RED, E1.L(nu) == 0, E1.R(nu) == 0))))
            E1.anchor(nu); E1.anchor(top); 
            for x in list(E0.anch.values()): E1.anchor(x)
            f = s2.wfam(D.fam); fld = {D.ol: E1.L, D.orr: E1.R, D.op: E1.P}
            def po(key): E1.touch(key[0]); E0.touch(key[0]); return fld[key[1]](zi(key[0])) if key[1] in fld else UNINIT
            def co(key): E1.touch(key[0]); E0.touch(key[0]); return E1.C(zi(key[0])) if key[1] == D.oc else UNINIT
            cond = lambda key: (E0.touch(key[0]), inn(key[0]))[1]; same = lambda key: key
            f.comps["po"] = f.comp("po").rgsub(cond, FM.base(po), same); f.comps["pp"] = f.comp("pp").rg(cond, lambda key: 0); f.comps["i32"] = f.comp("i32").rgsub(cond, FM.base(co), same)
            f.live = f.live.pt((nu,), True); f.comps["alive"] = f.comp("alive").pt((nu, D.okey), True); f.comps["val"] = f.comp("val").pt((nu, D.okey), v)
            if D.map: f.comps["alive"] = f.comp("alive").pt((nu, D.oval), True); f.comps["val"] = f.comp("val").pt((nu, D.oval), wv)
            if r[0] == "o": D.setp(s2, D.T.S_, D.oroot, top)
            else: f.comps["po"] = f.comp("po").pt((z, off), top)
            D.setp(s2, ret, 0, nu); o = s2.wobj(flag); o.comps["i8"] = o.comp("i8").pt((0,), 1)
            S_ = D.T.S_; o = s2.wobj(S_); n = e.fm_read(s2, o.comp("i64"), (D.osize,), w); mb = e.fm_read(s2, o.comp("po"), (D.obegin,), w)
            o.comps["i64"] = o.comp("i64").pt((D.osize,), Add(n, 1)); D.setp(s2, S_, D.obegin, If(Or(Eq(mb, 0), Lt(q, D.rk(mb))), nu, mb))
            c = FInt("cmps"); e.assume(s2, And(Le(0, c), Le(c, bound))); D.bump(s2, c)
            s2.ghost["ins"] = ("new", nu, E1, sub)
            if e.feasible(s2): outs.append(("ret", s2, None))
        except Dead: pass
        return outs
def setp(D, st, id, off, v):
    o = st.wobj(id); o.comps["po"] = o.comp("po").pt((off,), v); o.comps["pp"] = o.comp("pp").pt((off,), 0); o.otypes[off] = "p"
Dom.setp = setp
def value_arg(D):
    """the inserted element as the caller's object: key (and mapped value)"""
    T = D.T; o = T.struct("x", max(2, D.oval - D.okey + 1) if D.map else 1); D.xv = FInt("x_key"); D.xw = FInt("x_mapped"); D.q = RK(D.xv)
    for off, v in [(0, D.xv)] + ([(D.oval - D.okey, D.xw)] if D.map else []):
        o.comps["alive"] = o.comp("alive").pt((off,), True); o.comps["val"] = o.comp("val").pt((off,), v)
    D.x_ = o.id; return Ptr(o.id, 0)
Dom.value_arg = value_arg

def body_cases(D):
    """case split of the recursion's precondition (one task each, so that they are verified in parallel)"""
    E0 = D.E0; t = zi(E0.top); r = D.rk(t); q = D.q; go = And(t != 0, E0.C(t) == D.BLACK); cs = [("leaf, present or red top", Or(Not(go), q == r))]
    for nm, side, F, G in (("left", q < r, E0.L, E0.R), ("right", r < q, E0.R, E0.L)):
        cs += [(f"{nm}, into a red child", And(go, side, F(t) != 0, E0.C(F(t)) == D.RED)), (f"{nm}, into a black child", And(go, side, Not(And(F(t) != 0, E0.C(F(t)) == D.RED))))]
    return cs
CASES = ["leaf, present or red top"] + [f"{a}, into a {b} child" for a in ("left", "right") for b in ("red", "black")]
SHARDS = [1, 3, 1, 4, 1]       # paths of a case are distributed over this many tasks
def insert_body(T, kind, case, shard=0, fname="s_insert", fail=False):
    """the recursive lambda of insert against its own contract, for an arbitrary link"""
    D = Dom(T, kind); D.install(); e = T.e; st = T.st; x = D.value_arg()
    S_ = T.struct("S", D.sz); T.S_ = S_.id; mb = FInt("mbegin"); n0 = T.int("size"); T.assume(Lt(n0, lib.MAXSZ // 32)); T.set_cell(S_, D.oroot, "p", Ptr(FInt("root"), 0)); T.set_cell(S_, D.obegin, "p", Ptr(mb, 0)); T.set_cell(S_, D.osize, "i64", n0)
    out = T.struct("out", 8); flag = T.struct("flag", 1)
    slot = T.struct("link", 8); top, p, lo, hi = FInt("t"), FInt("p"), FInt("lo"), FInt("hi"); E0 = D.pre(top, p, lo, hi, outside=True); T.set_cell(slot, 0, "p", Ptr(top, 0))
    T.assume(And(lo < D.q, D.q < hi)); T.assume(Or(Eq(mb, 0), And(Lt(FAM0, mb), e.FK(mb) == D.k, Or(E0.IN(mb), And(D.OUT(mb), Or(D.rk(mb) <= lo, hi <= D.rk(mb))))))); E0.anchor(mb)
    cs = body_cases(D)
    if case == 0: T.e.oblige(st, Or(*[c for n, c in cs]), "recursive insertion: the cases are exhaustive")
    assert cs[case][0] == CASES[case]; T.assume(cs[case][1])
    H = Insertion(D, "body"); T.call(fname, Ptr(S_.id, 0), x, Ptr(out.id, 0), Ptr(flag.id, 0))
    if not H.cap: raise Unsupported("the recursive insertion was not found")
    st, fn, a, ks = H.cap[0]; a[ks.index("slot")] = Ptr(slot.id, 0)
    if "node" in ks: a[ks.index("node")] = Ptr(p, 0)
    fl, ret, val = H.cells(st, a, ks); e.depth = 0; T.covers += 1
    if fail: e.may_fail = True
    c0 = D.count(st); live0 = {i for i, o in st.mem.items()}
    outs = e.call_fn(st.copy(), fn, a); pre = st; outs = outs if fail else outs[shard::SHARDS[case]]
    if shard and all(o.status == "ok" for o in e.obligs): del e.obligs[:]          # counted once
    if not outs and shard: e.oblige(st, True, "recursive insertion: no further path"); return
    def post(s, rv):
        added = e.fm_read(s, s.mem[fl].comp("i8"), (0,), "post"); why = "recursive insertion"; must = lambda s, c, n: T.must(s, c, f"{why}: {n}")
        now = T.cell(s, Ptr(slot.id, 0), 0, "p"); got = T.cell(s, Ptr(ret, 0), 0, "p"); b = T.cell(s, Ptr(S_.id, 0), D.obegin, "p"); n = T.cell(s, Ptr(S_.id, 0), D.osize, "i64")
        must(s, Le(Sub(D.count(s), c0), If(Eq(top, 0), 1, Add(Mul(2, D.ht(E0, top)), 1))), "balance: comparisons within twice the height")
        must(s, And(Eq(got.off, 0), Eq(now.off, 0), Eq(b.off, 0)), "links point to whole nodes")
        news = [o for o in D.news(s)]
        if T.split(s, Eq(added, 0)):
            E0.anchor(got.obj)
            must(s, And(Ne(got.obj, 0), E0.IN(got.obj), Eq(D.rk(got.obj), D.q)), "present: result is the node with an equivalent key")
            D.same_tree(s, "post: " + why + ": present: nodes unchanged"); must(s, And(Eq(now.obj, top), Eq(b.obj, mb), Eq(n, n0)), "present: link, size and smallest-element cache unchanged"); must(s, not news, "present: nothing allocated"); return
        must(s, Eq(added, 1), "flag is set"); must(s, Eq(n, Add(n0, 1)), "size grows by one")
        g = s.ghost.get("ins"); cases = [(lambda z: True, E0)]
        if g is None:
            must(s, len(news) == 1, "exactly one node is created")
            o = news[0]; nu = o.id; must(s, Eq(got.obj, nu), "result is the new node"); must(s, Eq(o.size, D.nsz), "new node's size")
            for off, v in [(D.okey, D.xv)] + ([(D.oval, D.xw)] if D.map else []):
                must(s, And(e.fm_read(s, o.comp("alive"), (off,), None), Eq(e.fm_read(s, o.comp("val"), (off,), "post: new element"), v)), "new node holds the value")
            j = FInt("off"); must(s, Implies(e.fm_read(s, o.comp("alive"), (j,), None), Or(Eq(j, D.okey), And(D.map, Eq(j, D.oval)))), "new node holds nothing else")
        else:
            must(s, g[0] == "new" and not news, "exactly one node is created"); nu = g[1]; must(s, Eq(got.obj, nu), "result is the new node"); sub = g[3]; E1 = g[2]
            cases = [(lambda z: Or(zi(z) == nu, sub(z)), E1)] + cases
            for off, v in [(D.okey, D.xv)] + ([(D.oval, D.xw)] if D.map else []): must(s, Eq(e.fm_read(s, s.fams[D.fam].comp("val"), (nu, off), "post: new element"), v), "new node holds the value")
        IN = lambda z: Or(Eq(z, nu), E0.IN(z)); E0.touch(nu)
        must(s, Eq(b.obj, If(Or(Eq(mb, 0), Lt(D.q, D.rk(mb))), nu, mb)), "smallest-element cache is updated")
        y = FInt("y"); s2 = s.copy(); [ep.anchor(y) for ep in D.eps]; e.assume(s2, E0.IN(y)); T.must(s2, Ne(D.rk(y), D.q), f"{why}: added only when no node holds an equivalent key") if e.feasible(s2) else None
        f = s.fams[D.fam]
        for c in ("#live", "alive", "val"):
            nowc = f.live if c == "#live" else f.comp(c); e.map_equal(s, D.base[c], nowc, c, f"post: {why}: other nodes' elements unchanged ({c})", ("f", D.fam), within=lambda key: Ne(key[0], nu))
        if D.OUT is not None:
            for c in ("po", "i32"): e.map_equal(s, D.base[c], f.comp(c), c, f"post: {why}: nodes elsewhere unchanged ({c})", ("f", D.fam), within=lambda key: And(Not(IN(key[0]))))
        was_red = And(Ne(top, 0), Eq(E0.C(top), D.RED))
        if isc(now.obj) and now.obj == 0: must(s, False, "order: subtree is not empty")
        must(s, Implies(was_red, Eq(D.rd(s, now.obj, D.oc, "i32", "post"), D.RED)), "balance: a red top stays red")
        D.check(s, now.obj, p, lo, hi, IN, cases, D.bh(E0, top), was_red, why)
    if not fail: D.post(outs, post); return
    def failed(s):
        must = lambda s, c, n: T.must(s, c, f"recursive insertion without storage: {n}")
        now = T.cell(s, Ptr(slot.id, 0), 0, "p"); b = T.cell(s, Ptr(S_.id, 0), D.obegin, "p"); n = T.cell(s, Ptr(S_.id, 0), D.osize, "i64")
        D.same_tree(s, "post: recursive insertion without storage: nodes unchanged"); must(s, And(Eq(b.off, 0), Eq(now.off, 0), Eq(now.obj, top), Eq(b.obj, mb), Eq(n, n0)), "link, size and smallest-element cache unchanged")
        must(s, not D.news(s), "nothing leaks"); must(s, Eq(e.fm_read(s, s.mem[fl].comp("i8"), (0,), "post"), 0), "nothing is reported as added")
    throws(D, outs, failed)
def throws(D, outs, f):
    """check f(st) on every outcome in which an allocation failed"""
    n = 0
    for o in outs:
        if o[0] != "throw": continue
        try: D.e.oblige(o[1], o[2] == "bad_alloc", f"the exception reaches the caller ({o[2]})")
        except Dead: continue
        n += 1; D.each(o[1], f)
    if not n: raise Unsupported("no allocation can fail")
def insert_fails(T, kind, fname="s_insert"):
    D = Dom(T, kind); D.install(); e = T.e; e.may_fail = True; x = D.value_arg(); S_ = D.container(); E0 = D.E0; H = Insertion(D, "top")
    T.assume(And(E0.lo < D.q, D.q < E0.hi)); out = T.struct("out", 8); flag = T.struct("flag", 1)
    if fname == "s_insert": outs = T.call(fname, S_, x, Ptr(out.id, 0), Ptr(flag.id, 0))
    else:
        h = FInt("hint"); T.assume(Or(Eq(h, 0), E0.ty(h))); outs = T.call(fname, S_, Ptr(h, 0), x)
    def failed(s): keep(D, s, S_, "insert without storage"); T.must(s, not D.news(s), "insert without storage: nothing leaks")
    throws(D, outs, failed)
def insert_top(T, kind, fname="s_insert"):
    """insert as a whole, over the contract of its recursion"""
    D = Dom(T, kind); D.install(); e = T.e; x = D.value_arg(); S_ = D.container(); E0 = D.E0; H = Insertion(D, "top")
    T.assume(And(E0.lo < D.q, D.q < E0.hi)); out = T.struct("out", 8); flag = T.struct("flag", 1)
    if fname == "s_insert": outs = T.call(fname, S_, x, Ptr(out.id, 0), Ptr(flag.id, 0))
    else:
        h = FInt("hint"); T.assume(Or(Eq(h, 0), E0.ty(h))); outs = T.call(fname, S_, Ptr(h, 0), x)
    why = "insert"
    def post(s, rv):
        must = lambda s, c, n: T.must(s, c, f"{why}: {n}")
        got = T.cell(s, Ptr(out.id, 0), 0, "p") if fname == "s_insert" else rv; fl = T.cell(s, Ptr(flag.id, 0), 0, "i8") if fname == "s_insert" else None
        root, b, n = T.cell(s, S_, D.oroot, "p"), T.cell(s, S_, D.obegin, "p"), T.cell(s, S_, D.osize, "i64")
        must(s, And(Eq(root.off, 0), Eq(b.off, 0), Eq(got.off, 0)), "links point to whole nodes")
        must(s, Le(Sub(D.count(s), D.cnt0), Add(Mul(2, D.ht(E0, E0.top)), 1)), "balance: comparisons within twice the height")
        must(s, not D.news(s), "no other allocation")
        g = s.ghost.get("ins")
        y = FInt("y"); [ep.anchor(y) for ep in D.eps]
        if g is None: must(s, False, "the insertion recursion runs"); return
        if g[0] == "present":
            E0.anchor(got.obj); must(s, And(Ne(got.obj, 0), E0.IN(got.obj), Eq(D.rk(got.obj), D.q)), "returns the element with an equivalent key")
            if fl is not None: must(s, Eq(fl, 0), "reports that nothing was added")
            D.same_tree(s, "post: insert: contents unchanged when present"); must(s, And(Eq(root.obj, E0.top), Eq(b.obj, D.mb0), Eq(n, D.n0)), "size and links unchanged when present"); return
        _, nu, E1, sub = g
        must(s, Eq(got.obj, nu), "returns the new element")
        if fl is not None: must(s, Eq(fl, 1), "reports that the key was new")
        must(s, Eq(n, Add(D.n0, 1)), "size grows by one")
        IN = lambda z: Or(Eq(z, nu), E0.IN(z)); E1.anchor(y)
        s2 = s.copy(); e.assume(s2, IN(y)); must(s2, And(Ne(b.obj, 0), IN(b.obj), Le(D.rk(b.obj), D.rk(y))), "smallest-element cache denotes the smallest element")
        s2 = s.copy(); e.assume(s2, E0.IN(y)); must(s2, Ne(D.rk(y), D.q), "adds only a key that was absent") if e.feasible(s2) else None
        f = s.fams[D.fam]
        for c in ("#live", "alive", "val"):
            nowc = f.live if c == "#live" else f.comp(c); e.map_equal(s, D.base[c], nowc, c, f"post: {why}: other elements unchanged ({c})", ("f", D.fam), within=lambda key: Ne(key[0], nu))
        col = D.rd(s, root.obj, D.oc, "i32", "post"); must(s, Eq(col, D.BLACK), "balance: the root is black")
        D.check(s, root.obj, 0, E0.lo, E0.hi, IN, [(lambda z: True, E1)], FIntOf(D, s, E0, E1), False, why)
    D.post(outs, post)
def FIntOf(D, s, E0, E1): return Add(D.bh(E0, E0.top), If(Eq(E1.C(zi(E1.top)), D.RED), 1, 0))

# ---------------------------------------------------------------- loops over a tree
def accessors(v):
    r = []
    for k in v:
        if isinstance(v[k], Ptr): r.append(lambda w, k=k: w[k].obj)
        elif isinstance(k, tuple) and len(k) == 3 and k[1] == "po": r.append(lambda w, k=k: w[k])
    return r
def walk_loops(D, q=None, y=None):
    """candidate invariants and variants for loops that move along tree links"""
    e = D.e; E0 = D.E0
    from havoc import Term
    def A(z):
        if not isc(z): E0.anchor(z)
        return z
    def cands(e, st, b, phis, init, cells):
        iv = {**{I.id: init[I.id] for I in phis}, **cells}; acc = accessors(iv); cs = []
        ck = (("o", D.cnt), "i64", (0,))
        for f in acc:
            i0 = A(f(iv)); IN = lambda v, f=f: E0.ty(A(f(v)))
            cs.append(Term("node", lambda v, f=f, IN=IN: And(Ne(f(v), 0), IN(v)))); cs.append(Term("node or null", lambda v, f=f, IN=IN: Or(Eq(f(v), 0), IN(v))))
            for F in (E0.LO, E0.HI): cs.append(Term("bound", lambda v, f=f, F=F, i0=i0: Or(Eq(f(v), 0), Eq(F(zi(A(f(v)))), F(zi(i0))))))
            for g in acc:
                if g is f: continue
                for F in (E0.P, E0.L, E0.R):
                    cs.append(Term("link", lambda v, f=f, g=g, F=F: Eq(g(v), F(zi(A(f(v)))))))
                    cs.append(Term("link", lambda v, f=f, g=g, F=F: Or(Eq(f(v), 0), Eq(g(v), F(zi(A(f(v))))))))
            if q is not None:
                cs.append(Term("search interval", lambda v, f=f: Or(Eq(f(v), 0), And(Lt(E0.LO(zi(A(f(v)))), q), Lt(q, E0.HI(zi(A(f(v)))))))))
                cs.append(Term("absent when the path ends", lambda v, f=f: Or(Ne(f(v), 0), Not(E0.IN(y)), Ne(D.rk(y), q))))
                if ck in iv: cs.append(Term("balance: comparisons so far", lambda v, f=f: Le(Add(v[ck], Mul(2, D.ht(E0, A(f(v))))), Add(cells[ck], Mul(2, D.ht(E0, i0))))))
        return cs
    def term(e, so, v, nv):
        for f in accessors(v):
            a, b = A(f(v)), A(f(nv)); w = lambda z: Sub(E0.HI(zi(z)), E0.LO(zi(z)))
            if isc(a) or e.entailed(so, And(E0.IN(a), Or(Eq(b, 0), And(E0.IN(b), Lt(w(b), w(a)))))) or e.entailed(so, And(E0.IN(a), E0.IN(b), Lt(w(a), w(b)))): return True
        return False
    def probe(e, sp, v, iv):
        for f in accessors(v): x = f(v); A(x); sp.pc.append(zb(Or(Eq(x, 0), E0.ty(x))))
        for k, x in v.items():
            if isinstance(x, Ptr): sp.pc.append(zb(Eq(x.off, iv[k].off)))
            elif isinstance(k, tuple) and k[1] == "pp": sp.pc.append(zb(Eq(x, iv[k])))
    e.inv_cands = [cands]; e.term_hooks = [term]; e.probe_hooks = [probe]
def keep(D, s, S_, why):
    T = D.T; D.same_tree(s, f"post: {why}: nodes unchanged"); T.must(s, And(Eq(T.cell(s, S_, D.oroot, "p").obj, D.E0.top), Eq(T.cell(s, S_, D.obegin, "p").obj, D.mb0), Eq(T.cell(s, S_, D.osize, "i64"), D.n0)), why + ": container unchanged"); T.must(s, not D.news(s), why + ": no allocation")
def find(T, kind, fname):
    D = Dom(T, kind); D.install(); e = T.e; S_ = D.container(); E0 = D.E0; kv = FInt("probe"); q = (RQ if "_q" in fname else RK)(kv); y = FInt("y"); E0.anchor(y)
    o = T.struct("key", 1); o.comps["alive"] = o.comp("alive").pt((0,), True); o.comps["val"] = o.comp("val").pt((0,), kv)
    T.assume(And(E0.lo < q, q < E0.hi)); walk_loops(D, q, y)
    outs = T.call(fname, S_, Ptr(o.id, 0))
    def post(s, rv):
        r = rv.obj if isinstance(rv, Ptr) else rv[0].obj
        must = lambda c, n: T.must(s, c, "find: " + n)
        must(Le(Sub(D.count(s), D.cnt0), Mul(2, D.ht(E0, E0.top))), "balance: comparisons within twice the height")
        if T.split(s, Eq(r, 0)): must(Or(Not(E0.IN(y)), Ne(D.rk(y), q)), "returns end() only when no element is equivalent")
        else: E0.anchor(r); must(And(E0.IN(r), Eq(D.rk(r), q)), "returns the element equivalent to the key")
        keep(D, s, S_, "find")
    D.post(outs, post)
def increment(T, kind, pre, suffix=""):
    D = Dom(T, kind); D.install(); e = T.e; S_ = D.container(); E0 = D.E0; x = FInt("cur"); y = FInt("y"); E0.anchor(x); E0.anchor(y); T.assume(E0.ty(x)); walk_loops(D)
    it = T.struct("it", 8); T.set_cell(it, D.inode, "p", Ptr(x, 0)); outs = T.call(("it_pre" if pre else "it_post") + suffix, Ptr(it.id, 0)); p = Ptr(it.id, 0)
    def post(s, rv):
        must = lambda c, n: T.must(s, c, "increment: " + n); r = T.cell(s, p, D.inode, "p")
        if pre: must(PEq(rv, p), "returns the iterator itself")
        else:
            z = rv if isinstance(rv, Ptr) else rv[0]; must(PEq(z, Ptr(x, 0)), "returns the old position")
        must(Eq(r.off, 0), "denotes a whole node")
        if T.split(s, Eq(r.obj, 0)): must(Not(And(E0.IN(y), Lt(D.rk(x), D.rk(y)))), "reaches end() only after the largest element")
        else:
            E0.anchor(r.obj); must(And(E0.IN(r.obj), Lt(D.rk(x), D.rk(r.obj))), "moves to a larger element")
            must(Not(And(E0.IN(y), Lt(D.rk(x), D.rk(y)), Lt(D.rk(y), D.rk(r.obj)))), "skips no element")
        keep(D, s, S_, "increment")
    D.post(outs, post)

# ---------------------------------------------------------------- clear
class Deletion:
    """del(n): every node of the subtree n is intact before; afterwards all of them are destroyed and released, and nothing else changed"""
    def __init__(s, D, mode): s.D = D; s.mode = mode; s.cap = []; D.e.contracts.insert(0, (re.compile(r".*cest::(set|map)<.*"), s.hook))
    def hook(s, e, st, fn, a, I):
        if fn.decl or "::node*" not in fn.dem: return None
        ks = params(fn)
        if len(ks) != len(a) or "node" not in ks or "slot" in ks or not recursive(e, fn): return None
        if s.mode == "body" and not s.cap: s.cap.append((st.copy(), fn, list(a), ks)); raise Dead()
        return s.apply(e, st, fn, a, I, ks)
    def apply(s, e, st, fn, a, I, ks):
        D = s.D; E0 = D.E0; w = e.loc(I) + "recursive deletion: "; p = a[ks.index("node")]; z = p.obj
        e.oblige(st, Eq(p.off, 0), w + "argument denotes a whole node")
        d = e.decide(st, Eq(z, 0))
        if d is None: raise Unsupported(w + "the argument is not a known child link") if isc(z) else Fork([Eq(z, 0), Ne(z, 0)])
        if d: return Outs([("ret", st, None)])
        E0.anchor(z); e.oblige(st, E0.IN(z), w + "argument is a node of the tree")
        lo, hi = E0.LO(zi(z)), E0.HI(zi(z))
        if s.mode == "body": e.oblige(st, Lt(Sub(hi, lo), Sub(E0.hi, E0.lo)), w + "recursion descends (termination)")
        sub = lambda x: (E0.anchor(x), And(E0.IN(x), Lt(lo, D.rk(x)), Lt(D.rk(x), hi)))[1]
        D.same_tree(st, w + "the subtree is intact", within=lambda key: sub(key[0]))
        f = st.wfam(D.fam); f.live = f.live.rg(lambda key: sub(key[0]), lambda key: False); f.comps["alive"] = f.comp("alive").rg(lambda key: sub(key[0]), lambda key: False)
        return Outs([("ret", st, None)])
def gone(D, s, IN, why):
    """every node of IN is destroyed and released"""
    T, e = D.T, D.e; z = FInt("node"); D.E0.anchor(z); s2 = s.copy(); e.assume(s2, IN(z))
    if not e.feasible(s2): return
    f = s2.fams[D.fam]; T.must(s2, Not(e.fm_read(s2, f.live, (z,), None)), why + ": every node is released")
    for o in (D.okey, D.oval): T.must(s2, Not(e.fm_read(s2, f.comp("alive"), (z, o), None)), why + ": every element is destroyed")
def delete_body(T, kind, fname="s_clear"):
    D = Dom(T, kind); D.install(); e = T.e; st = T.st; S_ = T.struct("S", D.sz); T.S_ = S_.id
    T.set_cell(S_, D.oroot, "p", Ptr(FInt("root"), 0)); T.set_cell(S_, D.obegin, "p", Ptr(FInt("mb"), 0)); T.set_cell(S_, D.osize, "i64", T.int("size"))
    top, p, lo, hi = FInt("t"), FInt("p"), FInt("lo"), FInt("hi"); E0 = D.pre(top, p, lo, hi, outside=True)
    H = Deletion(D, "body"); T.call(fname, Ptr(S_.id, 0))
    if not H.cap: raise Unsupported("the recursive deletion was not found")
    st, fn, a, ks = H.cap[0]; a[ks.index("node")] = Ptr(top, 0); e.depth = 0; T.covers += 1
    outs = e.call_fn(st.copy(), fn, a)
    def post(s, rv):
        f = s.fams[D.fam]; why = "recursive deletion"; gone(D, s, E0.IN, why)
        for c in ("#live", "alive", "val", "po", "i32"):
            nowc = f.live if c == "#live" else f.comp(c)
            e.map_equal(s, D.base[c], nowc, c, f"post: {why}: nodes elsewhere unchanged ({c})", ("f", D.fam), within=lambda key: (E0.anchor(key[0]), Not(E0.IN(key[0])))[1])
        T.must(s, not D.news(s), why + ": no allocation")
    D.post(outs, post)
def clear(T, kind, fname="s_clear"):
    D = Dom(T, kind); D.install(); e = T.e; S_ = D.container(); E0 = D.E0; H = Deletion(D, "top"); outs = T.call(fname, S_)
    def post(s, rv):
        gone(D, s, E0.IN, "clear"); T.must(s, not D.news(s), "clear: no allocation")
        if fname == "s_clear":
            root, b, n = T.cell(s, S_, D.oroot, "p"), T.cell(s, S_, D.obegin, "p"), T.cell(s, S_, D.osize, "i64")
            T.must(s, And(Eq(root.obj, 0), Eq(b.obj, 0), Eq(n, 0)), "clear: container is empty")
    D.post(outs, post)
def ctor(T, kind):
    D = Dom(T, kind); D.install(); o = T.struct("S", D.sz); S_ = Ptr(o.id, 0); outs = T.call("s_ctor", S_)
    def post(s, rv):
        root, b, n = T.cell(s, S_, D.oroot, "p"), T.cell(s, S_, D.obegin, "p"), T.cell(s, S_, D.osize, "i64")
        T.must(s, And(Eq(root.obj, 0), Eq(b.obj, 0), Eq(n, 0)), "constructor: empty container"); T.must(s, not D.news(s), "constructor: no allocation")
    T.post(outs, post)
# ---------------------------------------------------------------- observers
def observers(T, kind, fname, what):
    D = Dom(T, kind); D.install(); e = T.e; S_ = D.container(); outs = T.call(fname, S_)
    def post(s, rv):
        r = rv[0] if isinstance(rv, (list, tuple)) else rv
        if what == "begin": T.must(s, PEq(r, Ptr(D.mb0, 0)), "begin() denotes the smallest element, end() when empty")
        elif what == "end": T.must(s, And(Eq(r.obj, 0), Eq(r.off, 0)), "end() is the past-the-end position")
        elif what == "size": T.must(s, Eq(r, D.n0), "size() is the number of elements")
        else: T.must(s, Eq(Ne(r, 0), Eq(D.E0.top, 0)), "empty() tells whether there are no elements")
        keep(D, s, S_, fname)
    D.post(outs, post)
def iter_access(T, kind, fname):
    D = Dom(T, kind); D.install(); e = T.e; S_ = D.container(); E0 = D.E0; x = FInt("cur"); E0.anchor(x); T.assume(E0.ty(x))
    it = T.struct("it", 8); T.set_cell(it, D.inode, "p", Ptr(x, 0)); outs = T.call(fname, Ptr(it.id, 0))
    def post(s, rv):
        T.must(s, PEq(rv, Ptr(x, D.okey)), "dereference: the element of the node"); keep(D, s, S_, "dereference")
        T.must(s, PEq(T.cell(s, Ptr(it.id, 0), D.inode, "p"), Ptr(x, 0)), "dereference: iterator unchanged")
    D.post(outs, post)
def iter_cmp(T, kind, fname, eq):
    D = Dom(T, kind); D.install(); e = T.e; S_ = D.container(); E0 = D.E0; xs = []
    for nm in ("i", "j"):
        x = FInt(nm); T.assume(Or(Eq(x, 0), E0.ty(x))); it = T.struct("it" + nm, 8); T.set_cell(it, D.inode, "p", Ptr(x, 0)); xs.append((x, Ptr(it.id, 0)))
    outs = T.call(fname, xs[0][1], xs[1][1])
    def post(s, rv):
        c = Eq(xs[0][0], xs[1][0]); T.must(s, Eq(Ne(rv, 0), c if eq else Not(c)), "iterators compare equal exactly when they denote the same position"); keep(D, s, S_, "comparison")
    D.post(outs, post)
def iter_convert(T, kind, fname):
    D = Dom(T, kind); D.install(); x = FInt("cur"); it = T.struct("it", 8); T.set_cell(it, D.inode, "p", Ptr(x, 0)); outs = T.call(fname, Ptr(it.id, 0))
    T.post(outs, lambda s, rv: T.must(s, PEq(rv if isinstance(rv, Ptr) else rv[0], Ptr(x, 0)), "conversion keeps the position"))
# ---------------------------------------------------------------- copying: over the contracts of insert, clear and operator++
class Copy:
    """the destination is abstract: its three fields are functions (ROOT, BEGIN, an) of the number 'an' of source elements it
    holds, an being the first an elements of the source in order; -1 stands for the contents before the call"""
    def __init__(s, D, dest):
        e = D.e; s.D = D; s.dest = dest; T = D.T; s.n = D.n0; s.clearing = False
        s.POS = z3.Function("POS", I_, I_); s.NX = z3.Function("NX", I_, I_); s.RT = z3.Function("COPY_root", I_, I_); s.BG = z3.Function("COPY_begin", I_, I_)
        o = e.new_obj(T.st, "copied elements", 8); s.cell = o.id; s.E0 = D.E0; s.done = set()
        T.assume(And(s.RT(0) == 0, s.BG(0) == 0)); s.at(D.mb0); T.assume(Or(Eq(D.mb0, 0), s.POS(D.mb0) == 0))
        e.contracts.insert(0, (re.compile(r".*cest::(set|map)<.*"), s.hook))
    def at(s, z):
        """facts about the in-order position of node z"""
        z = zi(z)
        if z.get_id() in s.done: return
        s.done.add(z.get_id()); E0 = s.E0; E0.touch(z); n = zi(s.n); P, N = s.POS, s.NX
        s.D.e.axiom(Implies(E0.IN(z), And(P(z) >= 0, P(z) < n, N(z) >= 0, z3.If(N(z) == 0, P(z) == n - 1, And(E0.ty(N(z)), P(N(z)) == P(z) + 1)))))
    def init(s, k): 
        o = s.D.T.st.mem[s.cell]; o.comps["i64"] = FM.base().pt((0,), k); o.otypes[0] = "i64"
    def an(s, st): return s.D.e.fm_read(st, st.mem[s.cell].comps["i64"], (0,), None)
    def put(s, st, k):
        o = st.wobj(s.cell); o.comps["i64"] = o.comp("i64").pt((0,), k); D = s.D
        D.setp(st, s.dest, D.oroot, s.RT(zi(k)) if not isc(k) or k else 0); D.setp(st, s.dest, D.obegin, s.BG(zi(k)) if not isc(k) or k else 0)
        o = st.wobj(s.dest); o.comps["i64"] = o.comp("i64").pt((D.osize,), k); o.otypes[D.osize] = "i64"
    def holds(s, st, why):
        """the destination's fields are those of the first 'an' elements"""
        D, T = s.D, s.D.T; k = s.an(st); r, b, n = [D.e.fm_read(st, st.mem[s.dest].comp(c), (o,), why) for o, c in ((D.oroot, "po"), (D.obegin, "po"), (D.osize, "i64"))]
        D.e.oblige(st, And(Eq(r, s.RT(zi(k))), Eq(b, s.BG(zi(k))), Or(Eq(k, -1), Eq(n, k))), why + "destination is changed only by its own operations"); return k
    def hook(s, e, st, fn, a, I):
        D = s.D; E0 = s.E0; w = e.loc(I); nm = fn.dem
        if not a or not isinstance(a[0], Ptr): return None
        if re.search(r"tree_iter::operator\+\+\(\)$", nm):
            p = a[0]; it = e.load(st, p, "p", 8, w + "++: ") if hasattr(e, "load_p") else e.fm_read(st, st.mem[p.obj].comp("po"), (Add(p.off, D.inode),), w + "++: ")
            z = it.obj if isinstance(it, Ptr) else it; s.at(z)
            e.oblige(st, And(Ne(z, 0), E0.IN(z)), w + "++: iterator denotes an element"); D.setp(st, p.obj, Add(p.off, D.inode), s.NX(zi(z))); s.at(s.NX(zi(z))); return Outs([("ret", st, p)])
        if not (isc(a[0].obj) and a[0].obj == s.dest): return None
        if e.may_fail and re.search(r">::~(set|map)\(\)$", nm):
            s.holds(st, w + "destructor: "); s.put(st, 0); st.ghost["destroyed"] = st.ghost.get("destroyed", 0) + 1; e.oblige(st, st.ghost["destroyed"] == 1, w + "destructor: runs once"); return Outs([("ret", st, None)])
        if re.search(r">::clear\(\)$", nm): s.holds(st, w + "clear: "); s.put(st, 0); return Outs([("ret", st, None)])
        if re.search(r">::insert\((E|std::pair<E const, M>) const&\)$", nm):
            x = a[-1]; ret = fn.rty
            k = s.holds(st, w + "insert: "); e.oblige(st, Le(0, k), w + "insert: destination holds source elements only (it was emptied)")
            r = e.resolve(st, x, 1, w + "insert: ")
            if r[0] != "f": raise Unsupported(w + "copied element is not a source element")
            z = r[2]; s.at(z); e.oblige(st, And(E0.IN(z), Eq(r[3], D.okey)), w + "insert: argument is an element of the source"); e.oblige(st, Le(s.POS(zi(z)), k), w + "insert: elements arrive in order")
            s3 = st.copy() if e.may_fail else None
            k2 = If(Eq(s.POS(zi(z)), k), Add(k, 1), k); s.put(st, k2); c = FInt("cmps"); e.assume(st, Le(0, c)); D.bump(st, c)
            return Outs([("ret", st, s.pairval(e, st, fn, a, x))] + ([("throw", s3, "bad_alloc")] if s3 is not None else []))
        return None
    def pairval(s, e, st, fn, a, x):
        nd, fl = FInt("node"), FInt("added"); e.assume(st, And(Le(0, fl), Le(fl, 1)))
        return (Ptr(nd, 0), fl)
    def loops(s):
        from havoc import Term
        D = s.D; e = D.e; E0 = s.E0; ck = (("o", s.cell), "i64", (0,))
        def cands(e, st, b, phis, init, cells):
            iv = {**{I.id: init[I.id] for I in phis}, **cells}; cs = []
            if ck not in iv: return cs
            for (off, F) in ((D.oroot, s.RT), (D.obegin, s.BG)):
                key = (("o", s.dest), "po", (off,))
                if key in iv: cs.append(Term("dest", lambda v, key=key, F=F: Eq(v[key], F(zi(v[ck])))))
            key = (("o", s.dest), "i64", (D.osize,))
            if key in iv: cs.append(Term("size", lambda v: Eq(v[key], v[ck])))
            cs.append(Term("range", lambda v: And(Le(0, v[ck]), Le(v[ck], s.n))))
            for f in accessors(iv):
                def at(v, f=f): s.at(f(v)); return f(v)
                cs.append(Term("position", lambda v, at=at: And(Or(Eq(at(v), 0), And(E0.ty(at(v)), Eq(s.POS(zi(at(v))), v[ck]))), Or(Ne(at(v), 0), Eq(v[ck], s.n)))))
            return cs
        def term(e, so, v, nv): return ck in v and e.entailed(so, And(Lt(v[ck], nv[ck]), Le(nv[ck], s.n)))
        def probe(e, sp, v, iv):
            for f in accessors(v): x = f(v); s.at(x); sp.pc.append(zb(Or(Eq(x, 0), E0.ty(x))))
            for k, x in v.items():
                if isinstance(x, Ptr): sp.pc.append(zb(Eq(x.off, iv[k].off)))
                elif isinstance(k, tuple) and k[1] == "pp": sp.pc.append(zb(Eq(x, iv[k])))
            if ck in v: sp.pc.append(zb(And(Le(0, v[ck]), Le(v[ck], s.n))))
        e.inv_cands = [cands]; e.term_hooks = [term]; e.probe_hooks = [probe]
def copy(T, kind, fname, fail=False):
    D = Dom(T, kind); D.install(); e = T.e; S_ = D.container("source"); o = T.struct("dest", D.sz); dst = Ptr(o.id, 0); H = Copy(D, o.id)
    if fname == "s_assign":
        T.set_cell(o, D.oroot, "p", Ptr(H.RT(-1), 0)); T.set_cell(o, D.obegin, "p", Ptr(H.BG(-1), 0)); T.set_cell(o, D.osize, "i64", T.int("old_size")); H.init(-1)
    else: H.init(0)
    T.e.may_fail = fail; H.loops(); outs = T.call(fname, dst, S_)
    def post(s, rv):
        k = H.holds(s, "post: copy: "); T.must(s, Eq(k, D.n0), "copy: holds every element of the source and nothing else"); keep(D, s, S_, "copy: source")
        if fname == "s_assign": T.must(s, PEq(rv, dst), "assignment returns the destination")
    if not fail: D.post(outs, post); return
    def failed(s):
        k = H.holds(s, "post: copy without storage: "); keep(D, s, S_, "copy without storage: source"); T.must(s, not D.news(s), "copy without storage: nothing leaks")
        if fname == "s_assign": T.must(s, And(Le(0, k), Le(k, D.n0), "destroyed" not in s.ghost), "copy without storage: destination holds a first part of the source's elements")
        else: T.must(s, s.ghost.get("destroyed") == 1, "copy without storage: what the constructor had acquired is released")
    throws(D, outs, failed)
def assign_self(T, kind):
    D = Dom(T, kind); D.install(); S_ = D.container(); outs = T.call("s_assign", S_, S_)
    def post(s, rv): T.must(s, PEq(rv, S_), "self-assignment returns the object"); keep(D, s, S_, "self-assignment")
    D.post(outs, post)
# ---------------------------------------------------------------- balance: a lemma over the tree invariant
def depth_lemma(T, kind):
    """for every node of a valid tree: HT (nodes on the longest path down) <= 2*bh + [red] and CNT (nodes below and at) >= 2^bh - 1,
    by induction over the height; at the black root: depth <= 2*log2(n+1)"""
    D = Dom(T, kind); D.install(); e = T.e; D.container(); E0 = D.E0; st = T.st; CNT, HT, POW = [z3.Function(x, I_, I_) for x in ("CNT", "HT", "POW")]
    hyp = lambda c: Implies(c != 0, And(CNT(c) + 1 >= POW(E0.BH(c)), HT(c) <= 2 * E0.BH(c) + z3.If(E0.C(c) == D.RED, 1, 0), HT(c) >= 1))
    cnt = lambda c: z3.If(c == 0, 0, CNT(c)); ht = lambda c: z3.If(c == 0, 0, HT(c))
    z = FInt("z"); E0.anchor(z); l, r = E0.L(z), E0.R(z); E0.touch(l); E0.touch(r); s = st.copy(); T.covers += 1
    e.assume(s, And(E0.ty(z), hyp(l), hyp(r), CNT(z) == cnt(l) + cnt(r) + 1, HT(z) == 1 + z3.If(ht(l) > ht(r), ht(l), ht(r)), POW(0) == 1))
    for k in (z3.IntVal(0), E0.BH(z), E0.BH(l), E0.BH(r)): e.assume(s, Implies(k >= 0, And(POW(k + 1) == 2 * POW(k), POW(k) >= 1)))
    if not e.feasible(s): raise Unsupported("vacuous lemma")
    e.oblige(s, HT(z) <= 2 * E0.BH(z) + z3.If(E0.C(z) == D.RED, 1, 0), "lemma: longest path of a subtree is at most twice its black height (plus one under a red top)")
    e.oblige(s, CNT(z) + 1 >= POW(E0.BH(z)), "lemma: a subtree of black height b has at least 2^b - 1 nodes"); e.oblige(s, HT(z) >= 1, "lemma: heights are positive")
    s = st.copy(); t = E0.top; E0.touch(t); b = E0.BH(t); k = FInt("log2"); e.assume(s, And(t != 0, hyp(t), CNT(t) == zi(D.n0)))
    e.oblige(s, And(HT(t) <= 2 * b, POW(b) <= D.n0 + 1), "lemma: the tree's depth is at most twice b with 2^b <= size + 1")
    e.oblige(s, Implies(And(POW(b) <= D.n0 + 1, D.n0 + 1 < POW(k), Implies(k <= b, POW(k) <= POW(b))), HT(t) < 2 * k), "lemma: the depth is below 2k whenever size + 1 < 2^k")
# ---------------------------------------------------------------- the functions under contract of one container
def tasks(task, kind, CS, sufs):
    t = lambda ps, nm, f: task(ps, kind + " " + nm, mod=kind + "_")(f); W = [CS, "C10", "C12"]
    order = sorted(range(len(CASES)), key=lambda i: -SHARDS[i])
    for i in order:
        for k in range(SHARDS[i]): t(W, f"insert: recursion ({CASES[i]})" + (f" {k + 1}/{SHARDS[i]}" if SHARDS[i] > 1 else ""), lambda T, i=i, k=k: insert_body(T, kind, i, k))
    t(W, "insert", lambda T: insert_top(T, kind))
    for i in range(len(CASES)): t(["C25"], f"insert: recursion without storage ({CASES[i]})", lambda T, i=i: insert_body(T, kind, i, fail=True))
    t(["C25"], "insert without storage", lambda T: insert_fails(T, kind))
    if kind == "set": t(["C25"], "insert(hint) without storage", lambda T: insert_fails(T, kind, "s_insert_hint"))
    for f in ("s_ctor_copy", "s_assign"): t(["C25"], f[2:] + " without storage", lambda T, f=f: copy(T, kind, f, True))
    t(["C10"], "depth", lambda T: depth_lemma(T, kind))
    if kind == "set": t(W, "insert(hint)", lambda T: insert_top(T, kind, "s_insert_hint"))
    for nm, f in (("find", "s_find"), ("find const", "s_find_c"), ("find other", "s_find_q"), ("find other const", "s_find_qc")): t([CS, "C10"], nm, lambda T, f=f: find(T, kind, f))
    for s in sufs:
        n = " const" if s else ""
        t(["C12", CS], "++it" + n, lambda T, s=s: increment(T, kind, True, s)); t(["C12"], "it++" + n, lambda T, s=s: increment(T, kind, False, s))
        for f in ("it_deref", "it_arrow"): t(["C12", CS], f + n, lambda T, f=f, s=s: iter_access(T, kind, f + s))
        for f in ("it_eq", "it_ne"): t(["C12"], f + n, lambda T, f=f, s=s: iter_cmp(T, kind, f + s, f == "it_eq"))
    t([CS, "C12"], "clear: recursion", lambda T: delete_body(T, kind)); t([CS, "C12"], "clear", lambda T: clear(T, kind)); t([CS], "destructor", lambda T: clear(T, kind, "s_dtor"))
    t([CS, "C10", "C12"], "constructor", lambda T: ctor(T, kind)); t([CS], "copy constructor", lambda T: copy(T, kind, "s_ctor_copy")); t([CS], "assignment", lambda T: copy(T, kind, "s_assign")); t([CS], "self-assignment", lambda T: assign_self(T, kind))
    for f, w in (("s_begin", "begin"), ("s_cbegin", "begin"), ("s_end", "end"), ("s_end_c", "end"), ("s_cend", "end")): t(["C12"] + ([CS] if w == "end" else []), f[2:], lambda T, f=f, w=w: observers(T, kind, f, w))
    for f in ("s_size", "s_empty"): t([CS], f[2:], lambda T, f=f: observers(T, kind, f, f[2:]))
