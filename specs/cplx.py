"""Contracts of cest::complex<double> over pairs of exact reals."""
from spec import *
import havoc, loops
HARNESS = "complex"
P = "C19"

def mk(T, name, raw=False):
    o = T.struct(name, 16)
    if raw: return Ptr(o.id, 0), None
    a, b = FReal(name + "_re"), FReal(name + "_im")
    T.set_cell(o, 0, "f8", a); T.set_cell(o, 8, "f8", b)
    return Ptr(o.id, 0), (a, b)
def scal(T, name):
    o = T.struct(name, 8); a = FReal(name); T.set_cell(o, 0, "f8", a); return Ptr(o.id, 0), a
def val(T, st, p): return T.cell(st, p, 0, "f8"), T.cell(st, p, 8, "f8")
def eqr(a, b): return S(a == b)
def add(x, y): return x[0] + y[0], x[1] + y[1]
def sub(x, y): return x[0] - y[0], x[1] - y[1]
def mul(x, y): return x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]
def div(x, y):
    n = y[0] * y[0] + y[1] * y[1]
    return (x[0] * y[0] + x[1] * y[1]) / n, (x[1] * y[0] - x[0] * y[1]) / n
R0 = z3.RealVal(0)
def sc(a): return a, R0
def setup(T): T.done_externs()
def must2(T, st, v, w, why):
    T.must(st, eqr(v[0], w[0]), why + ": real part"); T.must(st, eqr(v[1], w[1]), why + ": imaginary part")

def defined(T, x):
    """divisor is not zero"""
    T.assume(z3.Or(x[0] != 0, x[1] != 0)); return x[0] * x[0] + x[1] * x[1] != 0
def nz(T, d):
    """the norm of a non-zero divisor is not zero: proved once as a lemma, then used"""
    g = z3.Or(d[0] != 0, d[1] != 0); T.assume(g)
    T.e.oblige(T.st.copy(), d[0] * d[0] + d[1] * d[1] > 0, "lemma: the norm of a non-zero number is positive")
    T.assume(d[0] * d[0] + d[1] * d[1] > 0)

# constructors, access
for nm, k in (("cx_ctor", 2), ("cx_ctor1", 1), ("cx_ctor0", 0)):
    @task(P, nm)
    def t(T, nm=nm, k=k):
        setup(T); z, _ = mk(T, "z", True); a = [FReal("a") for _ in range(k)]
        T.post(T.call(nm, z, *a), lambda st, r: must2(T, st, val(T, st, z), (a + [R0, R0])[:2], nm))
@task(P, "cx_copy")
def t(T):
    setup(T); z, _ = mk(T, "z", True); x, v = mk(T, "x")
    T.post(T.call("cx_copy", z, x), lambda st, r: (must2(T, st, val(T, st, z), v, "copy"), T.frame(st, [], [x.obj])))
for nm, i in (("cx_real", 0), ("cx_imag", 1), ("cx_freal", 0), ("cx_fimag", 1)):
    @task(P, nm)
    def t(T, nm=nm, i=i):
        setup(T); z, v = mk(T, "z")
        T.post(T.call(nm, z), lambda st, r: (T.must(st, eqr(r, v[i]), nm + " returns the part"), T.frame(st, [], [z.obj])))
for nm, i in (("cx_set_real", 0), ("cx_set_imag", 1)):
    @task(P, nm)
    def t(T, nm=nm, i=i):
        setup(T); z, v = mk(T, "z"); a = FReal("a")
        T.post(T.call(nm, z, a), lambda st, r: must2(T, st, val(T, st, z), (a, v[1]) if i == 0 else (v[0], a), nm))
# assignment and compound assignment
def comp(nm, f, dv=False, scalar=False):
    for alias in ([False] if scalar else [False, True]):
        @task(P, nm + ("[self]" if alias else ""))
        def t(T, alias=alias):
            setup(T); z, v = mk(T, "z")
            if scalar: x, s = scal(T, "a"); w = sc(s)
            elif alias: x, w = z, v
            else: x, w = mk(T, "x")
            if dv:
                if scalar: T.assume(s != 0)
                else: nz(T, w)
            def post(st, r):
                T.must(st, PEq(r, z), nm + " returns the object itself"); must2(T, st, val(T, st, z), f(v, w), nm)
                T.frame(st, [], [] if alias else [x.obj])
            T.post(T.call(nm, z, x), post)
comp("cx_assign_s", lambda v, w: w, scalar=True); comp("cx_assign", lambda v, w: w)
comp("cx_add_s", add, scalar=True); comp("cx_sub_s", sub, scalar=True); comp("cx_mul_s", mul, scalar=True)
comp("cx_div_s", lambda v, w: (v[0] / w[0], v[1] / w[0]), True, scalar=True)
comp("cx_add", add); comp("cx_sub", sub); comp("cx_mul", mul); comp("cx_div", div, True)
# compound assignment with an operand of another component type
def mkf(T, name):
    o = T.struct(name, 8); a, b = FReal(name + "_re"), FReal(name + "_im")
    T.set_cell(o, 0, "f4", a); T.set_cell(o, 4, "f4", b)
    return Ptr(o.id, 0), (a, b)
@task(P, "cx_conv")
def t(T):
    setup(T); z, _ = mk(T, "z", True); x, v = mkf(T, "x")
    T.post(T.call("cx_conv", z, x), lambda st, r: (must2(T, st, val(T, st, z), v, "conversion"), T.frame(st, [], [x.obj])))
def compf(nm, f, dv=False):
    @task(P, nm)
    def t(T):
        setup(T); z, v = mk(T, "z"); x, w = mkf(T, "x")
        if dv: nz(T, w)
        def post(st, r):
            T.must(st, PEq(r, z), nm + " returns the object itself"); must2(T, st, val(T, st, z), f(v, w), nm); T.frame(st, [], [x.obj])
        T.post(T.call(nm, z, x), post)
compf("cx_assign_f", lambda v, w: w); compf("cx_add_f", add); compf("cx_sub_f", sub); compf("cx_mul_f", mul); compf("cx_div_f", div, True)
# binary operators
def binary(nm, f, l="c", r="c", dv=False):
    for alias in ([False, True] if l == r == "c" else [False]):
        @task(P, nm + ("[same]" if alias else ""))
        def t(T, alias=alias):
            setup(T); q, _ = mk(T, "r", True)
            if l == "c": x, v = mk(T, "x")
            else: x, s = scal(T, "x"); v = sc(s)
            if alias: y, w = x, v
            elif r == "c": y, w = mk(T, "y")
            else: y, s = scal(T, "y"); w = sc(s)
            if dv:
                if r == "c": nz(T, w)
                else: T.assume(w[0] != 0)
            T.post(T.call(nm, q, x, y), lambda st, rr: (must2(T, st, val(T, st, q), f(v, w), nm), T.frame(st, [], [x.obj, y.obj])))
divs = lambda v, w: (v[0] / w[0], v[1] / w[0])
for s, f in (("plus", add), ("minus", sub), ("times", mul), ("over", div)):
    dv = s == "over"
    binary("cx_" + s, f, dv=dv); binary(f"cx_{s}_s", divs if dv else f, r="s", dv=dv); binary(f"cx_s_{s}", f, l="s", dv=dv)
for nm, f in (("cx_pos", lambda v: v), ("cx_neg", lambda v: (-v[0], -v[1])), ("cx_conj", lambda v: (v[0], -v[1]))):
    @task(P, nm)
    def t(T, nm=nm, f=f):
        setup(T); q, _ = mk(T, "r", True); x, v = mk(T, "x")
        T.post(T.call(nm, q, x), lambda st, r: (must2(T, st, val(T, st, q), f(v), nm), T.frame(st, [], [x.obj])))
@task(P, "cx_norm")
def t(T):
    setup(T); x, v = mk(T, "x")
    T.post(T.call("cx_norm", x), lambda st, r: (T.must(st, eqr(r, v[0] * v[0] + v[1] * v[1]), "norm is the squared magnitude"), T.frame(st, [], [x.obj])))
for nm, neg, sclr, rev in (("cx_eq", 0, 0, 0), ("cx_ne", 1, 0, 0), ("cx_eq_s", 0, 1, 0), ("cx_s_eq", 0, 1, 1), ("cx_ne_s", 1, 1, 0), ("cx_s_ne", 1, 1, 1)):
    @task(P, nm)
    def t(T, nm=nm, neg=neg, sclr=sclr, rev=rev):
        setup(T); x, v = mk(T, "x")
        if sclr: y, s = scal(T, "y"); w = sc(s)
        else: y, w = mk(T, "y")
        e = z3.And(v[0] == w[0], v[1] == w[1])
        T.post(T.call(nm, *((y, x) if rev else (x, y))), lambda st, r: T.must(st, zb(r) == (z3.Not(e) if neg else e), nm + ": componentwise equality"))

# ---------------------------------------------------------------- integer powers
# PR(k), PI(k): parts of the k-th power of the base, defined by repeated multiplication
PR = z3.Function("POW_RE", z3.IntSort(), z3.RealSort()); PI = z3.Function("POW_IM", z3.IntSort(), z3.RealSort())
def POW(k): k = zi(k); return PR(k), PI(k)
def lemmas(T, base):
    """P(a)*P(b) = P(a+b) for all a,b >= 0, by induction on b from the definition P(0)=1, P(k+1)=P(k)*x"""
    e = T.e; s = T.st
    a, b = FInt("a"), FInt("b"); x = base
    s1 = s.copy(); e.assume(s1, And(eqr(PR(0), 1), eqr(PI(0), 0)))
    m = mul(POW(a), POW(0))
    e.oblige(s1.copy(), And(eqr(m[0], PR(a)), eqr(m[1], PI(a))), "lemma: P(a)*P(0) = P(a)")
    # associativity as a polynomial identity
    A, B, Cc = [(FReal("u"), FReal("v")) for _ in range(3)]
    l, r = mul(mul(A, B), Cc), mul(A, mul(B, Cc))
    for i in (0, 1): e.oblige(s.copy(), S(z3.simplify(l[i] - r[i], som=True) == 0), "lemma: complex multiplication is associative")
    # step, with associativity instantiated at (P(a), P(b), x)
    s2 = s.copy(); k = zi(a) + b
    pab = (FReal("pr"), FReal("pi"))   # P(a)*P(b), equal to P(a+b) by the induction hypothesis
    nb = (FReal("nr"), FReal("ni")); nk = (FReal("kr"), FReal("ki"))
    pa, pb = (FReal("ar"), FReal("ai")), (FReal("br"), FReal("bi"))
    for p, q in ((nb, mul(pb, x)), (nk, mul(pab, x)), (pab, mul(pa, pb))):
        e.assume(s2, eqr(p[0], q[0])); e.assume(s2, eqr(p[1], q[1]))
    g = mul(pa, mul(pb, x)); h = mul(mul(pa, pb), x)
    for i in (0, 1): e.oblige(s2.copy(), S(z3.simplify(g[i] - h[i], som=True) == 0), "lemma: P(a)*P(b+1) = P(a+b)*x = P(a+b+1)")
def exponent(e, st, v):
    """k such that v is known to be POW(k)"""
    if isinstance(v[0], z3.ExprRef) and z3.is_app(v[0]) and v[0].decl().eq(PR) and z3.is_app(v[1]) and v[1].decl().eq(PI) and v[0].arg(0).eq(v[1].arg(0)): return v[0].arg(0)
    for a, b, k in st.ghost.get("exps", ()):
        if isinstance(v[0], z3.ExprRef) and v[0].eq(a) and isinstance(v[1], z3.ExprRef) and v[1].eq(b): return k
    if S(v[0] == 1) is True and S(v[1] == 0) is True: return z3.IntVal(0)
    x = st.ghost["base"]
    if VEq(v[0], x[0]) is True and VEq(v[1], x[1]) is True: return z3.IntVal(1)
    return None
def mul_contract(T):
    """call-site contract of operator*= (proved by task cx_mul): product of the operands; for powers of one base, P(a)*P(b)=P(a+b)"""
    def h(e, st, fn, a, I):
        try: v = val(T, st, a[0]); w = val(T, st, a[1])
        except Exception: return None
        i, j = exponent(e, st, v), exponent(e, st, w)
        if i is None or j is None: return None
        k = Add(i, j); r = POW(k); o = st.wobj(a[0].obj)
        for d, x in ((0, r[0]), (8, r[1])): o.otypes[Add(a[0].off, d)] = "f8"; o.comps["f8"] = o.comp("f8").pt((Add(a[0].off, d),), x)
        return Outs([("ret", st, a[0])])
    T.e.contracts.append((re.compile(r".*complex<double>& cest::complex<double>::operator\*=<double>\(.*\)"), h))
def pow_inv(T, n0):
    """loop invariant: the two complex cells are powers P(ex), P(ey) of the base with ey + ex*(n - n%2) = n0
    (or ey + ex*n = n0 where the square is taken last); some cell keeps its value or is re-squared each turn"""
    def cands(e, st, b, phis, init, cells):
        pairs = [ck for ck in cells if ck[1] == "f8" and (ck[0], "f8", (Add(ck[2][0], 8),)) in cells]
        ns = [I.id for I in phis if I.ty.kind == "int" and I.ty.w == 32]
        out = []
        class Pw(havoc.Inv):
            def __init__(s, xs, form): s.xs = xs; s.form = form; s.name = "powers of the base with " + form
            def vals(s, v): return [(v[c], v[(c[0], "f8", (Add(c[2][0], 8),))]) for c in s.xs]
            def rel(s, ex, ey, n):
                if s.form == "ey + ex*(n - n%2) = n0": return Eq(zi(ey) + zi(ex) * (zi(n) - Mod(n, 2)), n0)
                return Eq(zi(ey) + zi(ex) * zi(n), n0)
            def goal(s, e, st, v):
                ks = [exponent(e, st, x) for x in s.vals(v)]
                if any(k is None for k in ks): return [(st, False)]
                n = v[ns[0]]
                return [(st, And(Le(0, ks[0]), Le(0, ks[1]), s.rel(ks[0], ks[1], n)))]
            def use(s, e, st, v):
                ks = []
                for x in s.vals(v):
                    k = exponent(e, st, x)
                    if k is not None: ks.append(k); continue
                    k = FInt("ex"); ks.append(k); e.assume(st, Le(0, k)); e.assume(st, And(eqr(x[0], PR(k)), eqr(x[1], PI(k))))
                    st.ghost["exps"] = st.ghost.get("exps", ()) + ((x[0], x[1], k),)
                e.assume(st, s.rel(ks[0], ks[1], v[ns[0]]))
        if len(ns) == 1 and len(pairs) == 2:
            for xs in (pairs, pairs[::-1]):
                for form in ("ey + ex*(n - n%2) = n0", "ey + ex*n = n0"): out.append(Pw(xs, form))
        return out
    T.e.inv_cands.append(cands)
def pow_ax(T, base):
    lemmas(T, base)
    for g in (eqr(PR(0), 1), eqr(PI(0), 0), eqr(PR(1), base[0]), eqr(PI(1), base[1])): T.assume(g)
    T.st.ghost["base"] = base
@task(P, "cx_powu")
def t(T):
    setup(T); q, _ = mk(T, "r", True); x, v = mk(T, "x"); n = T.int("n", 32)
    mul_contract(T); pow_ax(T, v); pow_inv(T, n)
    def post(st, r):
        w = val(T, st, q); k = exponent(T.e, st, w)
        if k is None: T.must(st, And(eqr(w[0], PR(zi(n))), eqr(w[1], PI(zi(n)))), "power equals repeated multiplication")
        else: T.must(st, Eq(k, n), "power equals repeated multiplication")
    T.post(T.call("cx_powu", q, x, n), post)
@task(P, "cx_pow")
def t(T):
    setup(T); q, _ = mk(T, "r", True); x, v = mk(T, "x"); n = T.int("n", 32)
    pow_ax(T, v)
    neg = Le(1 << 31, n)
    k = If(neg, (1 << 32) - n, n)
    # a power of a non-zero base is not zero (needed where the reciprocal is taken)
    T.assume(Implies(neg, z3.Or(PR(k) != 0, PI(k) != 0)))
    T.assume(Implies(neg, PR(k) * PR(k) + PI(k) * PI(k) > 0))
    T.e.assumptions.add("negative complex powers: stated for bases whose power is not zero")
    def h(e, st, fn, a, I):
        # contract of __complex_pow_unsigned proved by task cx_powu; returns by value {double, double}
        if len(a) == 4: out, re_, im_, m = a; b = (re_, im_)
        elif len(a) == 3 and fn.rty.kind != "void": b = (a[0], a[1]); m = a[2]; out = None
        elif len(a) == 3: out, bp, m = a; b = val(T, st, bp)
        else:
            out = None; b = val(T, st, a[0]); m = a[1]
        e.oblige(st, And(eqr(b[0], v[0]), eqr(b[1], v[1])), e.loc(I) + "the base is passed on")
        if out is None: return Outs([("ret", st, POW(m))])
        raise Unsupported("return convention")
    T.e.contracts.append((re.compile(r".*cest::__complex_pow_unsigned<double>\(.*\)"), h))
    def post(st, r):
        w = val(T, st, q); d = T.split(st, neg)
        if d: y = div((z3.RealVal(1), R0), POW((1 << 32) - n)); must2(T, st, w, y, "reciprocal of the power for a negative exponent")
        else: must2(T, st, w, POW(n), "power for a non-negative exponent")
    T.post(T.call("cx_pow", q, x, n), post)
