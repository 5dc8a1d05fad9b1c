"""Contracts on external functions (trusted): allocation, opaque element operations, memory intrinsics."""
import re
import z3
from terms import *
from engine import *

EXT = []
def ext(rx):
    def d(f): EXT.append((re.compile(rx), f)); return f
    return d
MAXSZ = (1 << 63) - 1

# ---------------------------------------------------------------- allocation
@ext(r"operator new(\[\])?\(unsigned long(, std::align_val_t)?\)")
def op_new(e, st, fn, a, I):
    n = a[0]; s2 = st.copy() if e.may_fail else None
    e.assume(st, Le(n, MAXSZ))            # a successful allocation is at most PTRDIFF_MAX bytes
    o = e.new_obj(st, f"heap{e.nid}", n, heap=True)
    st.ghost["allocs"] = st.ghost.get("allocs", 0) + 1
    if s2 is None: return Ptr(o.id, 0)
    return Outs([("ret", st, Ptr(o.id, 0)), ("throw", s2, "bad_alloc")])

@ext(r"operator delete(\[\])?\(void\*(, unsigned long)?(, std::align_val_t)?\)")
def op_delete(e, st, fn, a, I):
    p = a[0]; size = a[1] if len(a) > 1 else None
    w = e.loc(I)
    obj = S(p.obj) if not isc(p.obj) else p.obj
    if isc(obj) and obj == 0: return None
    r = e.resolve(st, Ptr(obj, p.off), 0, w + "delete", check=False) if not isc(obj) else ("o", st.mem[obj], p.off)
    if r[0] == "o":
        o = r[1]
        e.oblige(st, o.heap, w + f"freed pointer came from an allocation ({o.name})")
        e.oblige(st, o.live, w + f"no double free of {o.name}")
        e.oblige(st, Eq(r[2], 0), w + "freed pointer is the start of its allocation")
        if size is not None: e.oblige(st, Eq(size, o.size), w + "released with the size it was obtained with")
        no_alive(e, st, o, None, w)
        e_release(e, st, o)
        o = st.wobj(o.id); o.live = False
    else:
        f = r[1]; id = r[2]
        lv = e.fm_read(st, f.live, (id,), None)
        e.oblige(st, lv, w + f"no double free of {f.name}")
        e.oblige(st, Eq(r[3], 0), w + "freed pointer is the start of its allocation")
        if size is not None: e.oblige(st, Eq(size, f.size), w + "released with the size it was obtained with")
        no_alive(e, st, f, id, w)
        f = st.wfam(f.name); f.live = f.live.pt((id,), False)
    return None
def e_release(e, st, o): pass
def no_alive(e, st, o, id, w):
    if "alive" not in o.comps or st.silent: return
    s2 = st.copy(); k = FInt("k")
    al = e.fm_read(s2, o.comps["alive"], (k,) if id is None else (id, k), None)
    if al is UNINIT or al is False: return
    e.oblige(s2, Not(And(al, Le(0, k), Lt(k, o.size))), w + "no live element in released storage")

# ---------------------------------------------------------------- opaque elements
MOVED = z3.Int("MOVED_FROM_VALUE")
class Elem:
    """ghost semantics of an opaque element type (size bytes)"""
    def __init__(self, name, size=1): self.name = name; self.size = size
    def loc(self, e, st, p, w, write=False): return e.ghost_loc(st, p, self.size, w, write)
    def alive(self, e, st, L): return e.gread(st, L[0], L[1], "alive")
    def need(self, e, st, p, w):
        L = self.loc(e, st, p, w)
        e.oblige(st, self.alive(e, st, L), w + f"{self.name} object is alive (constructed, not destroyed)")
        return L, e.gread(st, L[0], L[1], "val", w)
    def put(self, e, st, L, alive, val):
        tid, iso = L[2], L[3]
        if alive is not None: e.gwrite(st, tid, iso, L[1], "alive", alive)
        if val is not None: e.gwrite(st, tid, iso, L[1], "val", val)
    def construct(self, e, st, p, val, w):
        L = self.loc(e, st, p, w, True)
        e.oblige(st, Not(self.alive(e, st, L)), w + f"{self.name} constructed only over raw storage")
        self.put(e, st, L, True, val)

def install_elem(e, name="E", size=1, default=None, eq=None):
    T = Elem(name, size); n = re.escape(name)
    default = default if default is not None else z3.Int("DEFAULT_" + name)
    def reg(rx, f): e.externs.append((re.compile(rx), f))
    def ctor_default(e, st, fn, a, I): T.construct(e, st, a[0], default, e.loc(I))
    def ctor_copy(e, st, fn, a, I):
        w = e.loc(I); L, v = T.need(e, st, a[1], w + "copy source: "); T.construct(e, st, a[0], v, w)
    def ctor_move(e, st, fn, a, I):
        w = e.loc(I); L, v = T.need(e, st, a[1], w + "move source: ")
        T.construct(e, st, a[0], v, w)
        T.put(e, st, T.loc(e, st, a[1], w), None, MOVED)
    def asg_copy(e, st, fn, a, I):
        w = e.loc(I); L, v = T.need(e, st, a[1], w + "copy source: "); D, _ = T.need(e, st, a[0], w + "target: ")
        T.put(e, st, T.loc(e, st, a[0], w, True), None, v); return a[0]
    def asg_move(e, st, fn, a, I):
        w = e.loc(I); L, v = T.need(e, st, a[1], w + "move source: "); D, _ = T.need(e, st, a[0], w + "target: ")
        T.put(e, st, T.loc(e, st, a[0], w, True), None, v)
        T.put(e, st, T.loc(e, st, a[1], w, True), None, MOVED); return a[0]
    def dtor(e, st, fn, a, I):
        w = e.loc(I); L = T.loc(e, st, a[0], w, True)
        e.oblige(st, T.alive(e, st, L), w + f"{name} destroyed exactly once")
        T.put(e, st, L, False, None)
    def eqop(e, st, fn, a, I):
        w = e.loc(I); L, v = T.need(e, st, a[0], w); L2, v2 = T.need(e, st, a[1], w)
        return S(zi(v) == zi(v2))
    def ltop(e, st, fn, a, I):
        w = e.loc(I); L, v = T.need(e, st, a[0], w); L2, v2 = T.need(e, st, a[1], w)
        return S(zi(v) < zi(v2))
    reg(n + r"::" + n + r"\(\)", ctor_default)
    reg(n + r"::" + n + r"\(" + n + r" const&\)", ctor_copy)
    reg(n + r"::" + n + r"\(" + n + r"&&\)", ctor_move)
    reg(n + r"::operator=\(" + n + r" const&\)", asg_copy)
    reg(n + r"::operator=\(" + n + r"&&\)", asg_move)
    reg(n + r"::~" + n + r"\(\)", dtor)
    reg(n + r"::operator==\(" + n + r" const&\) const", eqop)
    reg(r"operator<\(" + n + r" const&, " + n + r" const&\)", ltop)
    reg(r"operator==\(" + n + r" const&, " + n + r" const&\)", eqop)
    return T

# ---------------------------------------------------------------- library control
@ext(r"std::__throw_.*|__cxa_throw|__cxa_rethrow|std::terminate\(\)|abort|__assert_fail|_Unwind_Resume|__clang_call_terminate")
def thrower(e, st, fn, a, I):
    what = fn.dem
    if what == "__cxa_rethrow" and e.may_fail: what = st.ghost["exc"]
    if what == "__cxa_throw":
        tinfo = a[1]
        for n, (id, *_r) in e.globs.items():
            if isc(tinfo.obj) and id == tinfo.obj: what = "throw " + n
    return Outs([("throw", st, what)])
@ext(r"__cxa_allocate_exception")
def cxa_alloc(e, st, fn, a, I):
    o = e.new_obj(st, "local-exception", a[0]); return Ptr(o.id, 0)
@ext(r"__cxa_free_exception|__cxa_begin_catch|__cxa_end_catch")
def cxa_free(e, st, fn, a, I): return NULL if fn.rty.kind == "ptr" else None
@ext(r"std::(out_of_range|logic_error|runtime_error|length_error|bad_alloc|exception)::[~a-z_]+\(.*\)")
def exc_ctor(e, st, fn, a, I): return None
@ext(r"llvm\.lifetime\..*|llvm\.dbg\..*|llvm\.assume|llvm\.experimental\.noalias.*")
def nop(e, st, fn, a, I): return None
@ext(r"llvm\.expect\..*")
def expect(e, st, fn, a, I): return a[0]
@ext(r"llvm\.is\.constant\..*")
def iscst(e, st, fn, a, I): return False
@ext(r"llvm\.fmuladd\.f(32|64)|llvm\.fma\.f(32|64)")
def fmuladd(e, st, fn, a, I): return e.fround(st, z3.simplify(a[0] * a[1] + a[2]))
@ext(r"llvm\.fabs\.f(32|64)")
def fabs_(e, st, fn, a, I): return z3.simplify(z3.If(a[0] < 0, -a[0], a[0]))
@ext(r"llvm\.umul\.with\.overflow\.i64")
def umulo(e, st, fn, a, I):
    p = Mul(a[0], a[1]); o = e.decide(st, Lt(p, U64))
    if o is True: return (p, False)
    return (S(zi(p) % U64), Not(Lt(p, U64)))
@ext(r"llvm\.(u|s)(min|max)\.i(32|64)")
def minmax(e, st, fn, a, I):
    x, y = a; s = fn.dem[5] == "s"; w = 64 if fn.dem.endswith("64") else 32
    xs, ys = (e.sgn(st, x, w), e.sgn(st, y, w)) if s else (x, y)
    c = Lt(xs, ys)
    return e.ite(st, c, x, y) if "min" in fn.dem else e.ite(st, c, y, x)

# ---------------------------------------------------------------- memory intrinsics
def copy_bytes(e, st, d, s, n, w, overlap_ok):
    if isc(n) and n == 0: return
    z = e.decide(st, Eq(n, 0))
    if z is True: return
    if z is None: raise Fork([Eq(n, 0), Lt(0, n)])
    rs = e.resolve(st, s, n, w + "source: "); rd = e.resolve(st, d, n, w + "target: ", True)
    if rs[0] != "o" or rd[0] != "o":
        return copy_typed(e, st, d, s, n, w)
    so, do = rs[1], rd[1]
    if so.nocheck or do.nocheck: raise Unsupported("copy from/to an external global")
    s0, d0 = rs[2], rd[2]
    if so.id == do.id and not overlap_ok:
        e.oblige(st, Or(Le(Add(s0, n), d0), Le(Add(d0, n), s0)), w + "memcpy ranges do not overlap")
    sc = dict(so.comps)
    do2 = st.wobj(do.id)
    if so.dtype is not None or not so.otypes:
        # homogeneous buffer
        names = [so.dtype] if so.dtype else ["i8"]
        if names == ["p"]: names = ["po", "pp"]
        if do2.dtype is None and not do2.otypes: do2.dtype = so.dtype or "i8"
        elif do2.dtype is None and set(do2.otypes.values()) <= {so.dtype or "i8"}: do2.dtype = so.dtype or "i8"
        elif do2.dtype != (so.dtype or "i8"): raise Unsupported("copy between differently typed buffers")
        for c in names:
            src = so.comp(c)
            do2.comps[c] = do2.comp(c).rgsub(lambda key, d0=d0, n=n: And(Le(d0, key[0]), Lt(key[0], Add(d0, n))),
                                             src, lambda key, d0=d0, s0=s0: (Add(Sub(key[0], d0), s0),))
        return
    if not (isc(n) and isc(s0) and isc(d0)):
        if set(so.otypes.values()) == {"i8"}:
            o2 = st.wobj(so.id); o2.dtype = "i8"
            return copy_bytes(e, st, d, s, n, w, overlap_ok)
        raise Unsupported("symbolic-size copy of structured object")
    for f, c in list(so.otypes.items()):
        if s0 <= f < s0 + n:
            names = ["po", "pp"] if c == "p" else [c]
            e.retype(do2, f - s0 + d0, e.SZ[c], c)
            for cc in names:
                v = e.fm_read(st, so.comp(cc), (f,), None)
                if v is not UNINIT: do2.comps[cc] = do2.comp(cc).pt((f - s0 + d0,), v)
def copy_typed(e, st, d, s, n, w): raise Unsupported("memcpy on node families")

@ext(r"llvm\.memcpy\..*|llvm\.memmove\..*|memcpy|memmove")
def memcpy(e, st, fn, a, I):
    if fn.dem.startswith("llvm.memcpy") and PEq(a[0], a[1]) is True:     # the intrinsic allows identical ranges
        e.resolve(st, a[0], a[2], e.loc(I) + "copy onto itself: "); return a[0]
    copy_bytes(e, st, a[0], a[1], a[2], e.loc(I), "memmove" in fn.dem)
    return a[0]
@ext(r"llvm\.memset\..*|memset")
def memset(e, st, fn, a, I):
    d, c, n = a[0], a[1], a[2]
    if isc(n) and n == 0: return d
    z = e.decide(st, Eq(n, 0))
    if z is True: return d
    if z is None: raise Fork([Eq(n, 0), Lt(0, n)])
    r = e.resolve(st, d, n, e.loc(I), True)
    if r[0] != "o": raise Unsupported("memset on family")
    o = st.wobj(r[1].id); d0 = r[2]
    if fn.dem == "memset": c = Mod(c, 256)
    if isc(n) and isc(d0) and isc(c) and c == 0 and o.dtype is None:
        o.tag = o.tag
        for f in list(o.otypes):
            if d0 <= f < d0 + n: del o.otypes[f]
        zero = lambda key, d0=d0, n=n: And(Le(d0, key[0]), Lt(key[0], d0 + n))
        for cc in ("i8", "i16", "i32", "i64", "po", "pp"): o.comps[cc] = o.comp(cc).rg(zero, lambda key: 0)
        o.comps["f8"] = o.comp("f8").rg(zero, lambda key: z3.RealVal(0))
        return d
    if o.dtype is None and set(o.otypes.values()) <= {"i8"}: o.dtype = "i8"
    if o.dtype != "i8": raise Unsupported("memset of structured object")
    o.comps["i8"] = o.comp("i8").rg(lambda key, d0=d0, n=n: And(Le(d0, key[0]), Lt(key[0], Add(d0, n))), lambda key, c=c: c)
    return d

# ---------------------------------------------------------------- C string functions (contracts from the C standard)
def bytes_at(e, st, p, n, w):
    """object with i8 content and offset; the n bytes are readable"""
    r = e.resolve(st, p, n, w)
    if r[0] != "o": raise Unsupported("string function on family")
    return r[1], r[2]
def rd8(e, st, o, k):
    v = e.fm_read(st, o.comp("i8"), (k,), None)
    return v
@ext(r"strlen")
def strlen_(e, st, fn, a, I):
    w = e.loc(I); p = a[0]
    o, off = bytes_at(e, st, p, 0, w)
    if o.const and isc(off) and isc(o.size):
        for i in range(o.size - off):
            v = rd8(e, st, o, off + i)
            if not isc(v): break
            if v == 0: return i
    cand = [t for (id, t) in st.ghost.get("nuls", ()) if id == o.id]
    ok = None
    for t in cand:
        v = rd8(e, st, o, t)
        if v is not UNINIT and e.entailed(st, And(Eq(v, 0), Le(off, t), Lt(t, o.size))): ok = t; break
    if not e.oblige(st, ok is not None, w + "argument is a terminated string"): raise Dead()
    r = FInt("len")
    e.assume(st, And(Le(0, r), Le(Add(off, r), ok)))
    v = rd8(e, st, o, Add(off, r))
    if v is UNINIT: raise Unsupported("strlen of uninitialised memory")
    e.assume(st, Eq(v, 0)); e.inst_hist(st, v)
    st.ghost["hist"] = st.ghost.get("hist", ()) + ((r, Ne(v, 0)),)
    # minimality relates r to any known terminator: instantiate at the candidates
    for t in cand:
        v = rd8(e, st, o, t)
        if v is not UNINIT: e.assume(st, Or(Not(And(Le(off, t), Eq(v, 0))), Le(Add(off, r), t)))
    hook = st.ghost.get("strlen_facts")
    if hook: hook(e, st, o, off, r)
    return r
@ext(r"memchr|__builtin_memchr")
def memchr_(e, st, fn, a, I):
    w = e.loc(I); p, c, n = a
    if e.decide(st, Eq(n, 0)) is True: return NULL
    o, off = bytes_at(e, st, p, n, w)
    c = Mod(c, 256); outs = Outs()
    r = FInt("len")
    s1 = st.copy()
    v = rd8(e, s1, o, Add(off, r))
    if v is UNINIT: e.oblige(st, False, w + "searched bytes are initialised"); raise Dead()
    # found at r
    try:
        e.assume(s1, And(Le(0, r), Lt(r, n))); e.assume(s1, Eq(v, c))
        s1.ghost["hist"] = s1.ghost.get("hist", ()) + ((r, Ne(v, c)),)
        if e.feasible(s1): outs.append(("ret", s1, Ptr(o.id, Add(off, r))))
    except Dead: pass
    s2 = st.copy(); m = FInt("len")
    e.assume(s2, Eq(m, n))
    h = Ne(subst(v, [(r, m)]), c) if isinstance(v, z3.ExprRef) else Ne(v, c)
    if h is False: e.assume(s2, Eq(n, 0))
    elif h is not True: s2.ghost["hist"] = s2.ghost.get("hist", ()) + ((m, h),)
    if e.feasible(s2): outs.append(("ret", s2, NULL))
    return outs
@ext(r"memcmp|__builtin_memcmp|bcmp")
def memcmp_(e, st, fn, a, I):
    w = e.loc(I); p, q, n = a
    if e.decide(st, Eq(n, 0)) is True: return 0
    z = e.decide(st, Eq(n, 0))
    if z is None: raise Fork([Eq(n, 0), Lt(0, n)])
    o1, f1 = bytes_at(e, st, p, n, w); o2, f2 = bytes_at(e, st, q, n, w)
    if o1.id == o2.id and Eq(f1, f2) is True: return 0
    d = FInt("len")
    v1 = rd8(e, st, o1, Add(f1, d)); v2 = rd8(e, st, o2, Add(f2, d))
    if v1 is UNINIT or v2 is UNINIT: e.oblige(st, False, w + "compared bytes are initialised"); raise Dead()
    outs = Outs()
    eqd = Eq(v1, v2)
    for kind in ("eq", "lt", "gt"):
        s = st.copy()
        try:
            if kind == "eq": e.assume(s, Eq(d, n)); rv = 0
            else:
                e.assume(s, And(Le(0, d), Lt(d, n))); e.assume(s, Lt(v1, v2) if kind == "lt" else Lt(v2, v1))
                x = FInt("cmp"); rv = x
                if kind == "lt": e.assume(s, InRange(1 << 31, x, 1 << 32))
                else: e.assume(s, InRange(1, x, 1 << 31))
            if not isinstance(eqd, bool): s.ghost["hist"] = s.ghost.get("hist", ()) + ((d, eqd),)
            elif eqd is False: e.assume(s, Eq(d, 0))
        except Dead: continue
        s.ghost["diffs"] = s.ghost.get("diffs", ()) + ((d, f1, f2, kind),)
        if e.feasible(s): outs.append(("ret", s, rv))
    return outs
