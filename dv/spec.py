"""Specification layer: verification tasks, abstract models, contract checking."""
import re, time, traceback
import z3
from terms import *
import engine as E_
from engine import *
import lib

TASKS = {}          # property -> [(name, function)]
ALL = []            # (spec module, name, function, options, properties)
def task(props, name=None, **kw):
    def d(f):
        import sys
        ALL.append((kw.pop("mod", None) or sys._getframe(1).f_globals["__name__"], name or f.__name__, f, kw, list(props) if isinstance(props, (list, tuple)) else [props]))
        for p in (props if isinstance(props, (list, tuple)) else [props]):
            TASKS.setdefault(p, []).append((name or f.__name__, f, kw))
        return f
    return d

class SeqRep:
    """Abstract data type with sequence model (n, S).  While 'folded', an object is known only through its model;
    contracts of its member functions then act on the model.  Folding checks the representation invariant."""
    push_back = push_front = size = clear = dtor = None
    def register(self, p): self.T.e.reps[p.obj] = self
    def folded(self, st, id):
        o = st.mem[id]; return o.tag is not None and o.tag[0] == "folded"
    def fold(self, st, id):
        if self.folded(st, id): return
        m = self.read(st, Ptr(id, 0), "before call")
        own = self.owned(m)
        vals = self.seq_map(st, m)
        for b in own: del st.mem[b]
        self.extra_fold(st, m)
        o = st.wobj(id); o.tag = ("folded", self, FBool("nullrep")); o.comps = {}; o.otypes = {}
        o.comps["an"] = FM.base().pt((0,), m.n); o.comps["aval"] = vals
    def extra_fold(self, st, m): pass
    def owned(self, m): return [m.buf] if m.buf is not None else []
    def seq_map(self, st, m):
        if m.buf is None: return FM.base()
        return FM.base().rgsub(lambda key, n=m.n: InRange(0, key[0], n), st.mem[m.buf].comp("val"), lambda key: key)
    def model(self, st, id):
        m = Model(); m.p = Ptr(id, 0); o = st.mem[id]; e = self.T.e
        m.n = e.fm_read(st, o.comps["an"], (0,), "model"); m.folded = True; m.buf = None
        m.S = lambda i, st=st: e.fm_read(st, st.mem[id].comps["aval"], (i,), None)
        return m
    def contracts(self, e):
        def hook(rx, f):
            def h(e, st, fn, a, I):
                p = a[0]
                if not isinstance(p, Ptr) or not isc(p.obj) or p.obj not in e.reps or not Eq(p.off, 0) is True: return None
                r = e.reps[p.obj]
                if type(r) is not type(self): return None
                return f(r, e, st, fn, a, I, p.obj)
            e.contracts.append((re.compile(rx), h))
        def append(r, e, st, fn, a, I, id):
            v = r.arg_value(e, st, a[1], e.loc(I), fn)
            r.fold(st, id)
            n = e.fm_read(st, st.mem[id].comps["an"], (0,), "model")
            s2 = st.copy() if e.may_fail else None       # a failed push_back leaves the sequence unchanged
            e.assume(st, Lt(Add(n, 1), lib.MAXSZ))
            o = st.wobj(id); o.comps["aval"] = o.comps["aval"].pt((n,), v); o.comps["an"] = o.comps["an"].pt((0,), Add(n, 1))
            return Outs([("ret", st, None)] + ([("throw", s2, "bad_alloc")] if s2 is not None else []))
        def size(r, e, st, fn, a, I, id):
            if not r.folded(st, id): return None
            return Outs([("ret", st, e.fm_read(st, st.mem[id].comps["an"], (0,), "model"))])
        def destroy(r, e, st, fn, a, I, id):
            if not r.folded(st, id): return None
            o = st.wobj(id); o.tag = None; o.comps = {}       # the destructor releases everything the sequence owns
            return Outs([("ret", st, None)])
        if self.push_back: hook(self.push_back, append)
        if self.dtor: hook(self.dtor, destroy)
        if self.size: hook(self.size, size)
    def arg_value(self, e, st, p, w, fn):
        L, v = lib.Elem("E").need(e, st, p, w)
        if "&&" in fn.dem: lib.Elem("E").put(e, st, lib.Elem("E").loc(e, st, p, w), None, lib.MOVED)
        return v
class Model: folded = False

class Task:
    def __init__(self, module, name, timeout=10000):
        self.e = Engine(module, name, timeout); self.st = State(); self.name = name
        self.e.externs = []
        self.e.reps = {}; self.e.seqs = []; self.e.inv_extra = []; self.e.inv_cands = []; self.e.bufreps = []; self.e.term_hooks = []; self.e.probe_hooks = []
        self.covers = 0
    def done_externs(self): self.e.externs = self.e.externs + list(lib.EXT)
    def fn(self, name):
        f = self.e.m.functions.get(name)
        if f is None:
            c = [g for g in self.e.m.functions.values() if g.dem == name]
            if not c: raise Unsupported("function under contract not found: " + name)
            f = c[0]
        return f
    def call(self, name, *args, st=None):
        st = st or self.st
        if not self.e.feasible(st):
            raise Unsupported("vacuous precondition for " + name)
        self.covers += 1
        f = self.fn(name)
        outs = self.e.call_fn(st.copy(), f, list(args))
        return outs
    def int(self, nm="n", w=64):
        x = FInt(nm); self.assume(InRange(0, x, 1 << w)); return x
    def assume(self, c, st=None): self.e.assume(st or self.st, c)
    def struct(self, name, size, heap=False):
        return self.e.new_obj(self.st, name, size, heap)

    # ---------------------------------------------------------- postconditions
    def post(self, outs, f, throws=()):
        """check f(st, ret) on every normal outcome; throwing outcomes must match `throws` [(regex, cond)]"""
        n = 0
        for o in outs:
            if o[0] == "throw":
                c = False
                for rx, cond in list(throws) + [(r"std::__throw_bad_(alloc|array_new_length).*", True)]:
                    if re.fullmatch(rx, o[2]):
                        c = cond(o[1]) if callable(cond) else cond; break
                try: self.e.oblige(o[1], c, f"{self.name}: throws only where specified ({short(o[2])})")
                except Dead: pass
                continue
            n += 1
            self.each(o[1], lambda s, o=o: f(s, o[2]))
        if not n and not throws: raise Unsupported("no normal outcome")
        return n
    def unowned(self, st, fresh):
        for p in fresh:
            r = self.e.reps.get(p.obj)
            if r is not None: self.must(st, not r.folded(st, p.obj), "what the constructor had acquired is released")
    def fails(self, name, args, f, fresh=()):
        """check f(st) on every outcome of the call in which an allocation failed; nothing else may be thrown"""
        self.e.may_fail = True; n = 0
        for o in self.call(name, *args):
            if o[0] != "throw": continue
            try: self.e.oblige(o[1], bool(re.fullmatch(r"bad_alloc|throw _ZTISt12length_error|std::__throw_(bad_alloc|bad_array_new_length|length_error)\(.*", o[2])), f"{self.name}: the exception reaches the caller ({short(o[2])})")
            except Dead: continue
            n += 1; self.each(o[1], lambda s: (self.unowned(s, fresh), f(s)))
        if not n: raise Unsupported("no allocation can fail in " + name)
    def each(self, st, f):
        work = [st]
        while work:
            s = work.pop()
            mark = len(self.e.obligs)
            try: f(s.copy())
            except Fork as k:
                del self.e.obligs[mark:]
                for c in k.conds:
                    s2 = s.copy()
                    try: self.e.assume(s2, c)
                    except Dead: continue
                    if self.e.feasible(s2): work.append(s2)
            except Dead:
                if not s.silent and all(o.status == "ok" for o in self.e.obligs[mark:]) and self.e.feasible(s): raise Unsupported("a postcondition was abandoned on a feasible path")
    def must(self, st, c, name): self.e.oblige(st, c, "post: " + name)
    def witnesses(self, st):
        """iteration counters of the loops on this path (candidate witnesses for existential goals)"""
        r = {}
        for c in st.pc:
            if isinstance(c, z3.ExprRef):
                for x in consts_of(c):
                    if str(x).startswith("k!"): r[str(x)] = x
        return list(r.values())
    def split(self, st, c):
        """path split inside a postcondition"""
        d = self.e.decide(st, c)
        if d is None: raise Fork([c, Not(c)])
        return d
    def cell(self, st, p, off, comp):
        o = st.mem[p.obj]
        if comp == "p":
            return Ptr(self.e.fm_read(st, o.comp("po"), (Add(p.off, off),), f"{o.name}+{off}"),
                       self.e.fm_read(st, o.comp("pp"), (Add(p.off, off),), f"{o.name}+{off}"))
        return self.e.fm_read(st, o.comp(comp), (Add(p.off, off),), f"{o.name}+{off}")
    def set_cell(self, o, off, comp, v):
        o.otypes[off] = comp
        if comp == "p":
            o.comps["po"] = o.comp("po").pt((off,), v.obj); o.comps["pp"] = o.comp("pp").pt((off,), v.off)
        else: o.comps[comp] = o.comp(comp).pt((off,), v)
    def cval(self, name):
        ty, init, c = self.e.m.global_init(name); return init.v
    # frame: which heap objects may be live at the end
    def frame(self, st, live_ids, unchanged=()):
        for id, o in st.mem.items():
            if o.heap and o.live and id not in live_ids:
                self.e.oblige(st, False, f"post: storage {o.name} is released (no leak)")
        pre = self.st
        for id in unchanged:
            o0, o1 = pre.mem[id], st.mem[id]
            if o0 is o1: continue
            self.e.oblige(st, o1.live == o0.live, f"post: {o0.name} is not freed")
            for c in set(o0.comps) | set(o1.comps):
                a, b = o0.comp(c), o1.comp(c)
                if a is not b: self.e.map_equal(st, a, b, c, f"post: {o0.name} is left unchanged ({c})", ("o", id))
    # opaque element parameter
    def elem(self, name, val=None, alive=True, size=1):
        o = self.struct(name, size)
        v = FInt(name + "_val") if val is None else val
        if alive: o.comps["alive"] = o.comp("alive").pt((0,), True); o.comps["val"] = o.comp("val").pt((0,), v)
        return Ptr(o.id, 0), v
    def elem_val(self, st, p): return self.e.fm_read(st, st.mem[p.obj].comp("val"), (p.off,), None)
    def elem_alive(self, st, p): return self.e.fm_read(st, st.mem[p.obj].comp("alive"), (p.off,), None)

    def prove(self, st, goals):
        """silent attempt: are all goals [(state, formula)] provable?"""
        for s, g in goals:
            if isinstance(g, bool):
                if not g: return False
                continue
            s2 = s.copy(); self.e.inst_hist(s2, g)
            if not self.e.entailed(s2, g): return False
        return True
    def some(self, st, alts, name):
        """prove one of several alternatives, each a list of (state, formula)"""
        for gs in alts:
            if self.prove(st, gs):
                for s, g in gs: self.e.oblige(s.copy(), g, "post: " + name)
                return True
        self.e.oblige(st.copy(), False, "post: " + name)
    def terms(self, st, *prefixes):
        """fresh integer constants of the given kinds on this path (candidate witnesses)"""
        r = {}
        for c in st.pc:
            if isinstance(c, z3.ExprRef):
                for x in consts_of(c):
                    if str(x).rsplit("!", 1)[0] in prefixes: r[str(x)] = x
        return [r[k] for k in sorted(r)]
    def forall(self, st, lo, hi, f):
        """[(state, f(state, i))] for a fresh lo <= i < hi; empty when the range is empty"""
        i = FInt("i"); s = st.copy()
        try: self.e.assume(s, InRange(lo, i, hi))
        except Dead: return []
        if not self.e.feasible(s): return []
        return [(s, f(s, i))]
    def all(self, st, lo, hi, f, name):
        for s, g in self.forall(st, lo, hi, f): self.e.oblige(s, g, "post: " + name)
