"""Contracts of cest::basic_string<char> over the sequence model (n, S) with a terminated buffer."""
from spec import *
import havoc
HARNESS = "string"
NPOS = (1 << 64) - 1

from strrep import *
C3 = ["C03"]; C4 = ["C04"]

# ---- construction
def ctor(fn, args, n, want, name=None):
    def run(T):
        V = setup(T); a = args(T, V); o = T.struct("s", T.sz); p = Ptr(o.id, 0)
        def chk(st, ret):
            m = V.read(st, p); V.same(st, m, n(a), lambda i: want(a, i), fn)
            keep = {m.buf}
            if a and getattr(a[0], "buf", None): V.unchanged(st, a[0], "source unchanged"); keep.add(a[0].buf); T.must(st, m.buf != a[0].buf, "copy shares no storage")
            T.frame(st, keep)
        T.post(T.call(fn, p, *[x.p if isinstance(x, Model) else x for x in a]), chk)
    task(C3, name or fn)(run)
ctor("str_ctor", lambda T, V: [], lambda a: 0, None)
ctor("str_ctor_alloc", lambda T, V: [Ptr(T.struct("alloc", 1).id, 0)], lambda a: 0, None)
def a_n(T, V): m = chars(T); return [m, m.n]
ctor("str_ctor_n", a_n, lambda a: a[1], lambda a, i: a[0].S(i))
ctor("str_ctor_c", lambda T, V: [cstr(T)], lambda a: a[0].n, lambda a, i: a[0].S(i))
ctor("str_ctor_copy", lambda T, V: [V.make("o")], lambda a: a[0].n, lambda a, i: a[0].S(i))
def range_ctor(T, fail):
    e = T.e; V = Str(T); n = T.int("n"); i0 = T.int("i0"); T.assume(Lt(Mul(4, Add(n, 4)), lib.MAXSZ)); T.assume(Lt(i0, 1 << 32))
    Q = FFun("Q", z3.IntSort(), z3.IntSort()); base = bytes_of(T, Q, lambda k: True)
    def q(i): base((i,)); return Q(zi(i))
    a = T.struct("begin", 8); b = T.struct("end", 8)
    T.set_cell(a, 0, "i64", i0); T.set_cell(b, 0, "i64", Add(i0, n))
    end = Add(i0, n)
    def pos(e, st, p, w): return e.load(st, p, T.ity, w)
    T.ity = next(t for t in [I.ty for f in e.m.functions.values() if not f.decl for I in insts(e, f)] if t.kind == "int" and t.w == 64)
    def deref(e, st, fn, a, I):
        x = pos(e, st, a[0], e.loc(I)); e.oblige(st, And(Le(i0, x), Lt(x, end)), e.loc(I) + "iterator dereferenced before the end"); return q(x)
    def inc(e, st, fn, a, I):
        x = pos(e, st, a[0], e.loc(I)); e.oblige(st, Lt(x, end), e.loc(I) + "iterator incremented before the end"); e.store(st, a[0], T.ity, Add(x, 1), e.loc(I)); return a[0]
    e.externs += [(re.compile(r"In::operator\*\(\) const"), deref), (re.compile(r"In::operator\+\+\(\)"), inc),
        (re.compile(r"In::operator!=\(In const&\) const"), lambda e, st, fn, a, I: Ne(pos(e, st, a[0], ""), pos(e, st, a[1], ""))),
        (re.compile(r"In::operator==\(In const&\) const"), lambda e, st, fn, a, I: Eq(pos(e, st, a[0], ""), pos(e, st, a[1], "")))]
    T.done_externs()
    o = T.struct("s", T.sz); p = Ptr(o.id, 0)
    br = BufRep(T, o.id); e.bufreps = [br]
    def cands(e, st, b, phis, init, cells):
        r = []
        def content(hi):
            def P(e, s, i):
                ob = s.mem[br.buf(e, s)]
                return Eq(e.fm_read(s, ob.comp("i8"), (i,), None), q(Add(i0, i)))
            return havoc.Forall("content", lambda v: 0, hi, P)
        def cap(st): return None
        ks = [(lambda v, i=I.id: v[i]) for I in phis if I.ty.kind == "int" and I.ty.w == 64] + [(lambda v, c=c: v[c]) for c in cells if c[1] == "i64"]
        if not br.active(st): return []
        class Cap(havoc.Inv):
            name = "capacity"
            def __init__(s, f, rel): s.f = f; s.rel = rel
            def goal(s, e, st, v): return [(st, s.rel(s.f(v), T.cell(st, p, T.ocap, "i64")))]
            def use(s, e, st, v): e.assume(st, s.rel(s.f(v), T.cell(st, p, T.ocap, "i64")))
        for f in ks:
            r += [content(f), content(lambda v, f=f: Sub(f(v), i0)), Cap(f, Le), Cap(f, Eq), Cap(f, lambda x, c: Le(c, Add(Mul(2, x), 2))),
                  havoc.Term("below end", lambda v, f=f: And(Le(i0, f(v)), Le(f(v), end))), havoc.Term("length", lambda v, f=f: And(Le(0, f(v)), Le(f(v), n)))]
            r.append(Cap(f, lambda x, c: Le(c, Add(Mul(2, n), 2))))
        return r
    e.inv_cands = [cands]
    def chk(st, ret):
        m = V.read(st, p); V.same(st, m, n, lambda i: q(Add(i0, i)), "range constructor"); T.frame(st, {m.buf})
    if fail: T.fails("str_ctor_range", [p, Ptr(a.id, 0), Ptr(b.id, 0)], lambda st: T.frame(st, set()))
    else: T.post(T.call("str_ctor_range", p, Ptr(a.id, 0), Ptr(b.id, 0)), chk)
task(C3, "str_ctor_range")(lambda T: range_ctor(T, False))
task("C25", "str_ctor_range when storage cannot be obtained")(lambda T: range_ctor(T, True))
def insts(e, f):
    e.m.body(f); return [I for b in f.blocks for I in b.insts]

@task(C3)
def str_dtor(T):
    V = setup(T); s = V.make("s"); T.post(T.call("str_dtor", s.p), lambda st, ret: T.frame(st, set()))

# ---- observers
def obs(fn, want, extra=None, pre=None):
    def run(T):
        V = setup(T); v = V.make("s"); a = extra(T, v) if extra else []
        if pre: T.assume(pre(v, *a))
        def chk(st, ret):
            V.unchanged(st, v); w = want(v, *a)
            T.must(st, VEq(ret, w) if not isinstance(ret, (bool, z3.BoolRef)) else Eq(zb(ret), zb(w)), fn + " result"); T.frame(st, {v.buf})
        T.post(T.call(fn, v.p, *a), chk)
    task(C3, fn)(run)
for f in ("str_size", "str_length"): obs(f, lambda v: v.n)
obs("str_capacity", lambda v: v.cap); obs("str_empty", lambda v: Eq(v.n, 0))
for f in ("begin", "begin_c", "cbegin", "c_str", "data", "data_c", "front", "front_c"): obs("str_" + f, lambda v: v.data)
for f in ("end", "end_c", "cend"): obs("str_" + f, lambda v: Ptr(v.data.obj, v.n))
for f in ("back", "back_c"): obs("str_" + f, lambda v: Ptr(v.data.obj, Sub(v.n, 1)), pre=lambda v: Lt(0, v.n))
for f in ("index", "index_c"): obs("str_" + f, lambda v, i: Ptr(v.data.obj, i), lambda T, v: [T.int("i")], lambda v, i: Le(i, v.n))

# ---- modifiers
def mod(fn, args, post, name=None, pre=None, throws=()):
    def run(T):
        V = setup(T); v = V.make("s"); a = args(T, V, v) if args else []
        if pre: T.assume(pre(v, *a))
        def chk(st, ret):
            m = V.read(st, v.p); post(T, V, st, v, m, ret, *a)
            keep = {m.buf}
            for x in a:
                if isinstance(x, Model) and getattr(x, "buf", None) and x is not v: V.unchanged(st, x, "argument unchanged"); keep.add(x.buf)
            T.frame(st, keep)
        T.post(T.call(fn, v.p, *[x.p if isinstance(x, Model) else x for x in a]), chk, throws(v, *a) if callable(throws) else throws)
    task(C3, name or fn)(run)
mod("str_clear", None, lambda T, V, st, v, m, ret: T.must(st, Eq(m.n, 0), "cleared"))
mod("str_pop_back", None, lambda T, V, st, v, m, ret: V.same(st, m, Sub(v.n, 1), v.S, "pop_back"), pre=lambda v: Lt(0, v.n))
def p_reserve(T, V, st, v, m, ret, n):
    V.same(st, m, v.n, v.S, "reserve"); T.must(st, And(Le(n, m.cap), Le(v.cap, m.cap)), "capacity at least requested")
def too_long(v, n): return [(r"throw _ZTISt12length_error", Lt(lib.MAXSZ, n))]
mod("str_reserve", lambda T, V, v: [T.int("new_cap")], p_reserve, throws=too_long)
def small(v): return Lt(v.cap, lib.MAXSZ // 4)
def p_push(T, V, st, v, m, ret, p, c): V.same(st, m, Add(v.n, 1), lambda i: If(Eq(i, v.n), c, v.S(i)), "push_back")
def push_ext(T):
    V = setup(T); v = V.make("s"); T.assume(small(v)); x = T.struct("c", 1); c = T.int("ch", 8); T.set_cell(x, 0, "i8", c)
    def chk(st, ret): m = V.read(st, v.p); p_push(T, V, st, v, m, ret, None, c); T.frame(st, {m.buf})
    T.post(T.call("str_push_back", v.p, Ptr(x.id, 0)), chk)
task(C3, "str_push_back")(push_ext)
def push_self(T):
    V = setup(T); v = V.make("s"); T.assume(small(v)); j = T.int("j"); T.assume(Le(j, v.n))
    def chk(st, ret): m = V.read(st, v.p); p_push(T, V, st, v, m, ret, None, v.at(j)); T.frame(st, {m.buf})
    T.post(T.call("str_push_back", v.p, Ptr(v.buf, j)), chk)
task(C3, "str_push_back[own character]")(push_self)
def p_plus_c(T, V, st, v, m, ret, c): V.same(st, m, Add(v.n, 1), lambda i: If(Eq(i, v.n), c, v.S(i)), "+= char"); T.must(st, PEq(ret, v.p), "returns *this")
mod("str_plus_c", lambda T, V, v: [T.int("ch", 8)], p_plus_c, pre=lambda v, c: small(v))
def p_append(T, V, st, v, m, ret, s, n=None):
    n = s.n if n is None else n
    V.same(st, m, Add(v.n, n), lambda i: If(Lt(i, v.n), v.S(i), s.S(Sub(i, v.n))), "append"); T.must(st, PEq(ret, v.p), "returns *this")
def pre2(v, s, *r): return And(small(v), Lt(s.n, lib.MAXSZ // 4))
mod("str_append_n", lambda T, V, v: (lambda m: [m, m.n])(chars(T)), p_append, pre=pre2)
for f in ("str_append_s", "str_plus_s"):
    mod(f, lambda T, V, v: [V.make("o")], p_append, pre=pre2); mod(f, lambda T, V, v: [v], p_append, f + "[self]", pre=pre2)
def own_part(T, V, v):
    m = Model(); j = T.int("j"); m.n = T.int("count"); T.assume(Le(Add(j, m.n), v.n)); m.p = Ptr(v.buf, j); m.S = lambda i: v.S(Add(j, i)); return [m, m.n]
mod("str_append_n", own_part, p_append, "str_append_n[own characters]", pre=pre2)
# assignment from a C string: the characters before the first zero character
def p_asg_c(T, V, st, v, m, ret, s, *r):
    T.must(st, PEq(ret, v.p), "returns *this")
    T.must(st, Eq(s.at(m.n), 0), "assignment stops at a terminator")
    T.all(st, 0, m.n, lambda q, i: Ne(s.at(i), 0), "assignment stops at the first terminator")
    T.all(st, 0, m.n, lambda q, i: Eq(m.get(q, i), s.at(i)), "assigned: character i has the specified value")
def cs(T, V, v): m = cstr(T); m.at = lambda i: If(Eq(i, m.n), 0, m.S(i)); return [m]
mod("str_assign_c", cs, p_asg_c, pre=pre2)
def own_tail(T, V, v): m = Model(); j = T.int("j"); T.assume(Le(j, v.n)); m.n = v.n; m.p = Ptr(v.buf, j); m.at = lambda i: v.at(Add(j, i)); return [m]
mod("str_assign_c", own_tail, p_asg_c, "str_assign_c[own characters]", pre=pre2)
def p_asg(T, V, st, v, m, ret, s): V.same(st, m, s.n, s.S, "assigned"); T.must(st, PEq(ret, v.p), "returns *this")
mod("str_assign_s", lambda T, V, v: [V.make("o")], p_asg, pre=pre2); mod("str_assign_s", lambda T, V, v: [v], p_asg, "str_assign_s[self]", pre=pre2)

# ---- comparison
def lex(T, st, a, na, b, nb, r):
    """alternatives proving r = sign of lexicographic comparison"""
    mn = If(Lt(na, nb), na, nb)
    def eqs(hi): return T.forall(st, 0, hi, lambda s, i: Eq(a(i), b(i)))
    if r == 0: return [[(st, Eq(na, nb))] + eqs(na)]
    alts = [[(st, Lt(na, nb) if r < 0 else Lt(nb, na))] + eqs(S(mn))]
    for d in T.terms(st, "len", "k"):
        alts.append([(st, And(Le(0, d), Lt(d, na), Lt(d, nb), Lt(a(d), b(d)) if r < 0 else Lt(b(d), a(d))))] + eqs(d))
    return alts
def cmp_task(fn, kind, want):
    """want(sign) -> required result as (bool) or None for an int whose sign is checked"""
    for alias in ([False, True] if kind == "ss" else [False]):
        def run(T, alias=alias):
            V = setup(T); v = V.make("s"); o = v if alias else V.make("o") if kind == "ss" else cstr(T)
            args = [v.p, o.p]
            def chk(st, ret):
                V.unchanged(st, v); T.frame(st, {v.buf, getattr(o, "buf", 0)})
                if not T.split(st, Lt(v.n, o.n)): T.split(st, Eq(v.n, o.n))
                if isinstance(ret, (bool, z3.BoolRef)):
                    t = T.split(st, ret); sg = [s for s in (-1, 0, 1) if want(s) == t]
                    alts = [x for s in sg for x in lex(T, st, v.S, v.n, o.S, o.n, s)]
                    if set(sg) == {-1, 1}: alts.append([(st, Ne(v.n, o.n))])
                    T.some(st, alts, f"{fn} agrees with lexicographic order")
                else:
                    rs = T.e.sgn(st, ret, 32)
                    if T.split(st, Lt(rs, 0)): s = -1
                    elif T.split(st, Eq(rs, 0)): s = 0
                    else: s = 1
                    T.some(st, lex(T, st, v.S, v.n, o.S, o.n, s), f"{fn}: sign is that of the lexicographic order")
            T.post(T.call(fn, *args), chk)
        task(C4, fn + ("[self]" if alias else ""))(run)
cmp_task("str_compare_s", "ss", None); cmp_task("str_compare_c", "sc", None)
for f in ("str_eq_ss", "str2_eq_ss"): cmp_task(f, "ss", lambda s: s == 0)
for f in ("str_eq_sc", "str_eq_cs"): cmp_task(f, "sc", lambda s: s == 0)
cmp_task("str_ne_ss", "ss", lambda s: s != 0)
for f in ("str_ne_sc", "str_ne_cs"): cmp_task(f, "sc", lambda s: s != 0)
cmp_task("str_lt_ss", "ss", lambda s: s < 0); cmp_task("str_lt_sc", "sc", lambda s: s < 0); cmp_task("str_lt_cs", "sc", lambda s: s > 0)

# ---- search
def find_task(fn, mk, name=None):
    def run(T):
        e = T.e; V = setup(T); v = V.make("s"); needle, cnt, pos, args = mk(T, V, v)
        MM = z3.Function("mismatch_at", z3.IntSort(), z3.BoolSort())
        def mism(st, q):
            ds = [0] + T.terms(st, "len", "k")
            return Or(*[And(Le(0, d), Lt(d, cnt), Ne(v.S(Add(q, d)), needle(d))) for d in ds])
        def P(e, st, q): return Or(MM(zi(q)), mism(st, q))
        class FA(havoc.Forall):
            def use(s, e, st, vals): havoc.forall(e, st, s.lo(vals), s.hi(vals), lambda q: MM(zi(q)))
        def cands(e, st, b, phis, init, cells):
            r = []
            for I in phis:
                if isinstance(init[I.id], Ptr): r.append(FA("no match before", lambda v: pos, lambda v, i=I.id: v[i].off, P))
                elif I.ty.kind == "int" and I.ty.w == 64:
                    r.append(FA("no match before", lambda v: pos, lambda v, i=I.id: v[i], P))
                    r.append(FA("no match before", lambda v: pos, lambda v, i=I.id: Add(pos, v[i]), P))
            return r
        e.inv_cands = [cands]
        def chk(st, ret):
            V.unchanged(st, v)
            if T.split(st, Eq(ret, NPOS)):
                T.all(st, pos, Add(Sub(v.n, cnt), 1), lambda s, q: P(e, s, q), "npos only when there is no occurrence")
            else:
                T.must(st, And(Le(pos, ret), Le(Add(ret, cnt), v.n)), "position within the string and not before the start")
                T.all(st, 0, cnt, lambda s, i: Eq(v.S(Add(ret, i)), needle(i)), "the needle occurs at the returned position")
                T.all(st, pos, ret, lambda s, q: P(e, s, q), "no occurrence before the returned position")
        T.post(T.call(fn, v.p, *args), chk)
    task(C4, name or fn)(run)
def fpos(T): return T.int("pos")
def f_s(T, V, v): o = V.make("o"); p = fpos(T); return o.S, o.n, p, [o.p, p]
def f_s0(T, V, v): o = V.make("o"); return o.S, o.n, 0, [o.p]
def f_self(T, V, v): p = fpos(T); return v.S, v.n, p, [v.p, p]
def f_c(T, V, v): c = T.int("ch", 8); p = fpos(T); return (lambda i: c), 1, p, [c, p]
def f_c0(T, V, v): c = T.int("ch", 8); return (lambda i: c), 1, 0, [c]
def f_n(T, V, v): m = chars(T); p = fpos(T); return m.S, m.n, p, [m.p, p, m.n]
def f_own(T, V, v): m, n = own_part(T, V, v); p = fpos(T); return m.S, n, p, [m.p, p, n]
def f_p(T, V, v): m = cstr(T); p = fpos(T); return m.S, m.n, p, [m.p, p]
def f_p0(T, V, v): m = cstr(T); return m.S, m.n, 0, [m.p]
find_task("str_find_s", f_s); find_task("str_find_s0", f_s0); find_task("str_find_s", f_self, "str_find_s[self]")
find_task("str_find_c", f_c); find_task("str_find_c0", f_c0); find_task("str_find_n", f_n); find_task("str_find_n", f_own, "str_find_n[own characters]")
find_task("str_find_p", f_p); find_task("str_find_p0", f_p0)

# ---- failing allocations (C25)
NOST = " when storage cannot be obtained"
def sctor(fn, args):
    @task("C25", fn + NOST)
    def run(T):
        V = setup(T); a = args(T, V); p = Ptr(T.struct("s", T.sz).id, 0)
        def chk(st):
            for x in a:
                if isinstance(x, Model) and getattr(x, "buf", None): V.unchanged(st, x, "source unchanged")
            T.frame(st, {x.buf for x in a if isinstance(x, Model) and hasattr(x, "buf")})
        T.fails(fn, [p] + [x.p if isinstance(x, Model) else x for x in a], chk)
sctor("str_ctor", lambda T, V: []); sctor("str_ctor_alloc", lambda T, V: [Ptr(T.struct("alloc", 1).id, 0)])
sctor("str_ctor_n", a_n); sctor("str_ctor_c", lambda T, V: [cstr(T)]); sctor("str_ctor_copy", lambda T, V: [V.make("o")])
def smod(fn, args, name=None, pre=None):
    @task("C25", (name or fn) + NOST)
    def run(T):
        V = setup(T); v = V.make("s"); a = args(T, V, v)
        if pre: T.assume(pre(v, *a))
        def chk(st):
            keep = {v.buf}; V.unchanged(st, v, "after the failure")
            for x in a:
                if isinstance(x, Model) and getattr(x, "buf", None) and x is not v: V.unchanged(st, x, "argument unchanged"); keep.add(x.buf)
            T.frame(st, keep)
        T.fails(fn, [v.p] + [x.p if isinstance(x, Model) else x for x in a], chk)
smod("str_reserve", lambda T, V, v: [T.int("new_cap")])
def ch_arg(T, V, v): x = T.struct("c", 1); T.set_cell(x, 0, "i8", T.int("ch", 8)); return [Ptr(x.id, 0)]
def own_ch(T, V, v): j = T.int("j"); T.assume(Le(j, v.n)); return [Ptr(v.buf, j)]
smod("str_push_back", ch_arg); smod("str_push_back", own_ch, "str_push_back[own character]"); smod("str_plus_c", lambda T, V, v: [T.int("ch", 8)])
smod("str_append_n", lambda T, V, v: (lambda m: [m, m.n])(chars(T))); smod("str_append_n", own_part, "str_append_n[own characters]")
for f in ("str_append_s", "str_plus_s", "str_assign_s"):
    smod(f, lambda T, V, v: [V.make("o")])
    if f != "str_assign_s": smod(f, lambda T, V, v: [v], f + "[self]")
smod("str_assign_c", cs); smod("str_assign_c", own_tail, "str_assign_c[own characters]")
