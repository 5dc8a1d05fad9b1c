"""C26: sin, cos, sinh, cosh, exp, log, atan, atan2 approximate the real functions, over exact real arithmetic.
The real functions themselves are ghost reals; the facts used about them (listed as assumptions) are identities and Taylor bounds."""
from spec import *
import time
HARNESS = "trans"
P = "C26"
def rv(x): return z3.RealVal(x)
def Abs(x): return z3.If(x < 0, -x, x)
def both(x, b): return z3.And(x <= b, -b <= x)
PI_LO, PI_HI = rv("314159265358979/100000000000000"), rv("314159265358980/100000000000000")
HUGE = z3.RealVal(10 ** 309)
TINY = rv("1/1000000000000")
def consts(t):
    r = {}; seen = set(); w = [t]
    while w:
        x = w.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r[str(x)] = x
        w += x.children()
    return r
def noint(t):
    """integers converted to reals are just reals here (integrality is not used in non-linear proofs)"""
    sub = {}; w = [t]; seen = set()
    while w:
        x = w.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL) and z3.is_const(x.arg(0)) and not z3.is_int_value(x.arg(0)): sub[x.get_id()] = (x, z3.Real("re_" + str(x.arg(0))))
        else: w += x.children()
    return z3.substitute(t, *sub.values()) if sub else t
def ints(t):
    w = [t]; seen = set()
    while w:
        x = w.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_int(x): return True
        w += x.children()
    return False
def nodiv(t, dv):
    """quotients become named reals with their defining equation"""
    if not t.children(): return t
    ch = [nodiv(c, dv) for c in t.children()]; u = t.decl()(*ch) if not z3.is_and(t) and not z3.is_or(t) and not z3.is_add(t) and not z3.is_mul(t) and t.decl().kind() != z3.Z3_OP_DISTINCT else None
    if u is None:
        if z3.is_and(t): u = z3.And(*ch)
        elif z3.is_or(t): u = z3.Or(*ch)
        elif z3.is_add(t): u = z3.Sum(*ch)
        elif z3.is_mul(t): u = z3.Product(*ch)
        else: u = z3.Distinct(*ch)
    if u.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(u.arg(1)):
        k = u.get_id(); dv.setdefault(k, (u.arg(0), u.arg(1), z3.Real("quot_%d" % k))); return dv[k][2]
    return u
def prove(T, st, goal, name, over=None, silent=False):
    """obligation in non-linear real arithmetic, from the facts on the path that speak only about the reals `over`"""
    e = T.e; names = None if over is None else {str(v) for v in over}; t0 = time.time(); r = z3.unknown
    hyp = [noint(c) for c in st.pc if isinstance(c, z3.ExprRef)]; goal0 = goal; goal = noint(goal)
    hyp = [c for c in hyp if not ints(c) and (names is None or set(consts(c)) <= names)]; dv = {}; both_ = [nodiv(c, dv) for c in hyp + [goal]]; hyp, goal = both_[:-1] + [z3.Implies(b != 0, q * b == a) for (a, b, q) in dv.values()], both_[-1]
    for mk in (lambda: z3.Tactic("qfnra-nlsat").solver(), lambda: z3.SolverFor("QF_NRA")):
        try: s = mk(); s.set("timeout", e.timeout); s.add(*hyp); s.add(z3.Not(goal)); r = s.check()
        except z3.Z3Exception: r = z3.unknown
        if r != z3.unknown: break
    if silent: return r == z3.unsat
    o = type(e.obligs[0])() if e.obligs else Oblig(); o.name = f"{e.task}: post: {name}"; o.backend = "z3 nlsat"; o.time = time.time() - t0; o.status = "ok" if r == z3.unsat else "fail" if r == z3.sat else "unknown"
    o.model = str(s.model())[:2000] if r == z3.sat else None; o.detail = None if o.status == "ok" else "path: " + " -> ".join(st.trace[-12:]) + "\n  goal: " + str(goal)[:1500]
    e.obligs.append(o); st.pc.append(goal0)
def retype(e, st, t, ks):
    """conversions to real of integers known to equal one of `ks` are replaced by that integer's real"""
    w = [t]; seen = set(); sub = []
    while w:
        x = w.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_TO_REAL):
            for k in ks:
                if e.entailed(st, S(x.arg(0) == k)): sub.append((x, z3.ToReal(k))); break
        else: w += x.children()
    return z3.substitute(t, *sub) if sub else t
def start(T, *facts):
    T.done_externs(); e = T.e; e.nchecks = 0; T.assume(z3.Real("fp_inf") > HUGE); T.assume(z3.Real("fp_ninf") == -z3.Real("fp_inf"))
    e.assumptions.add("machine floating point treated as exact real arithmetic")
    e.assumptions.add("facts about the real functions (not proved here): " + "; ".join(facts))
    return e
def memo(T, make):
    """contract of a function of one real: equal arguments give equal results (the functions read nothing but their argument)"""
    seen = []
    def h(e, st, fn, a, I):
        for (x, r, facts) in seen:
            if x.eq(a[0]): st.pc.extend(facts); return r
        n = len(st.pc); r = make(e, st, fn, a, I)
        if r is None: return None
        seen.append((a[0], r, st.pc[n:])); return r
    return h
# ---------------------------------------------------------------- sine
K = rv("17/100000000")
SIN_FACTS = ("sin(3a) = 3 sin a - 4 sin^3 a", "0 <= x - sin x <= x^3/6 for x >= 0", "-1 <= sin <= 1", "sin is 1-Lipschitz, odd and sin(pi - x) = sin x, sin(x + 2 pi) = sin x", "cos x = sin(pi/2 - x)", "3.14159265358979 <= pi <= 3.14159265358980")
SIN_H = "cest::(anonymous namespace)::sin_helper(double)"
SH = r"cest::\(anonymous namespace\)::sin_helper\(double\)"
def B(x): return z3.If(x <= rv("21/10"), K * x, z3.If(x <= rv("63/10"), rv("301/100") * K * x, rv("91/10") * K * x))
@task(P, "sin: recursion")
def t(T):
    e = start(T, *SIN_FACTS); x = FReal("x"); sx = FReal("sin_x"); T.assume(z3.And(x >= 0, x <= 10)); T.assume(z3.And(sx >= -1, sx <= 1, sx <= x, x - sx <= x * x * x / 6))
    g = {}
    def make(e, st, fn, a, I):
        w = e.loc(I); e.oblige(st, S(3 * a[0] == x), w + "the recursion goes to a third of the argument"); e.oblige(st, S(z3.And(a[0] >= 0, a[0] <= 10)), w + "the recursive argument is in the domain")
        e.oblige(st, S(x >= rv("1/100000")), w + "the recursion terminates: arguments that are divided are bounded away from zero")
        y, s, h = FReal("y"), FReal("sin_third"), FReal("r"); g.update(y=y, s=s, h=h)
        for c in (3 * y == x, y == a[0], y >= 0, s >= -1, s <= 1, s <= y, y - s <= y * y * y / 6, sx == 3 * s - 4 * s * s * s, Abs(h - s) <= B(y)): st.pc.append(c)
        return h
    e.contracts.append((re.compile(SH), memo(T, make)))
    def post(st, r):
        if "h" in g and str(g["h"]) in consts(r):
            y, s, h = g["y"], g["s"], g["h"]; d = FReal("d"); f = FReal("f"); st.pc.append(d == h - s); st.pc.append(f == 3 - 12 * (s + d / 2) * (s + d / 2) - d * d)
            prove(T, st, r - sx == d * f, "sin: the error is multiplied by 3 - 12 (s + d/2)^2 - d^2", [x, sx, y, s, h, d, f])
            prove(T, st, Abs(d) <= rv("1/10000"), "sin: the recursive error is small", [y, s, h, d, x])
            prove(T, st, f <= 3, "sin: amplification at most 3 upwards", [s, d, f]); prove(T, st, f >= rv("-901/100"), "sin: amplification at most 9.01 downwards", [s, d, f])
            prove(T, st, z3.Implies(y <= rv("7/10"), f >= -3), "sin: amplification at most 3 for small arguments", [y, s, d, f])
            prove(T, st, Abs(d) <= B(y), "sin: the recursive error", [y, s, h, d])
            D_, F_, A = FReal("dm"), FReal("fm"), FReal("err"); st.pc.append(A == r - sx); st.pc.append(D_ == Abs(d)); st.pc.append(F_ == Abs(f))
            prove(T, st, Abs(A) == D_ * F_, "sin: size of the error", [d, f, D_, F_, A, x, sx, h])
            prove(T, st, z3.And(D_ <= B(y), D_ >= 0), "sin: size of the recursive error", [d, D_, y]); prove(T, st, z3.And(F_ <= rv("901/100"), z3.Implies(y <= rv("7/10"), F_ <= 3)), "sin: size of the amplification", [f, F_, y])
            prove(T, st, D_ * F_ <= B(x), "sin: accuracy after one more step", [D_, F_, x, y]); prove(T, st, Abs(A) <= B(x), "sin: accuracy", [A, D_, F_, x])
        else: prove(T, st, Abs(r - sx) <= B(x), "sin: accuracy without recursion", [x, sx])
    T.post(T.call(SIN_H, x), post)

def near(st, sa, v, gap): st.pc.append(Abs(sa - v) <= Abs(gap))
def PI(st): p = z3.Real("PI"); st.pc.append(z3.And(p >= PI_LO, p <= PI_HI)); return p
SIN_ERR = rv("2/100000")
@task(P, "sin")
def t(T):
    e = start(T, *SIN_FACTS); x = FReal("x"); sx = FReal("sin_x"); T.assume(z3.And(x >= rv("-68/10"), x <= 10))
    def make(e, st, fn, a, I):
        w = e.loc(I); e.oblige(st, S(z3.And(a[0] >= 0, a[0] <= 10)), w + "the reduced argument is in the domain"); p = PI(st); y, sa, r = FReal("y"), FReal("sin_y"), FReal("r"); st.pc.append(y == a[0])
        for v, gap in ((sx, y - x), (sx, y + x - p), (-sx, y + x), (sx, y - x - 2 * p), (sx, y - x + 2 * p), (-sx, y - x - p), (-sx, y - x + p)): near(st, sa, v, gap)
        st.pc.append(Abs(r - sa) <= B(y)); return r
    e.contracts.append((re.compile(SH), memo(T, make)))
    T.post(T.call("m_sin", x), lambda st, r: prove(T, st, Abs(r - sx) <= SIN_ERR, "sin: within 0.00002"))
@task(P, "cos")
def t(T):
    e = start(T, *SIN_FACTS); x = FReal("x"); cx = FReal("cos_x"); T.assume(both(x, rv("62832/10000")))
    def make(e, st, fn, a, I):
        w = e.loc(I); e.oblige(st, S(z3.And(a[0] >= rv("-68/10"), a[0] <= 10)), w + "the shifted argument is in the domain of sin"); p = PI(st); y, sa, r = FReal("y"), FReal("sin_y"), FReal("r"); st.pc.append(y == a[0])
        for v, gap in ((cx, y - p / 2 + x), (cx, y - p / 2 - x), (-cx, y + p / 2 - x), (-cx, y + p / 2 + x)): near(st, sa, v, gap)
        st.pc.append(Abs(r - sa) <= rv("19/1000000")); return r
    e.contracts.append((re.compile(r"cest::sin\(double\)"), memo(T, make)))
    T.post(T.call("m_cos", x), lambda st, r: prove(T, st, Abs(r - cx) <= SIN_ERR, "cos: within 0.00002"))
# ---------------------------------------------------------------- hyperbolic functions
SINH_FACTS = ("sinh(3a) = 3 sinh a + 4 sinh^3 a", "x <= sinh x for x >= 0", "sinh x <= x + x^3/6 + x^5/100 for 0 <= x <= 1", "sinh is odd", "cosh x >= 1 and cosh^2 = 1 + sinh^2")
SNH = r"cest::\(anonymous namespace\)::sinh_helper\(double\)"; SINH_H = "cest::(anonymous namespace)::sinh_helper(double)"
def R(x): return K * (1 + x * x)
def snh(x, s): return z3.And(s >= x, z3.Implies(x <= 1, s <= x + x * x * x / 6 + x * x * x * x * x / 100))
@task(P, "sinh: recursion")
def t(T):
    e = start(T, *SINH_FACTS); x = FReal("x"); sx = FReal("sinh_x"); T.assume(z3.And(x >= 0, x <= 10)); T.assume(snh(x, sx)); g = {}
    def make(e, st, fn, a, I):
        w = e.loc(I); e.oblige(st, S(3 * a[0] == x), w + "the recursion goes to a third of the argument"); e.oblige(st, S(x >= rv("1/100000")), w + "the recursion terminates: arguments that are divided are bounded away from zero")
        y, s, h = FReal("y"), FReal("sinh_third"), FReal("r"); g.update(y=y, s=s, h=h)
        for c in (3 * y == x, y == a[0], y >= 0, snh(y, s), sx == 3 * s + 4 * s * s * s, Abs(h - s) <= R(y) * s): st.pc.append(c)
        return h
    e.contracts.append((re.compile(SNH), memo(T, make)))
    def post(st, r):
        if "h" in g and str(g["h"]) in consts(r):
            y, s, h = g["y"], g["s"], g["h"]; q, f = FReal("rho"), FReal("f"); st.pc.append(q * s == h - s); st.pc.append(f == 3 + 12 * s * s + 12 * s * s * q + 4 * s * s * q * q)
            prove(T, st, z3.And(y > 0, s > 0), "sinh: positive", [x, y, s]); prove(T, st, both(q, R(y)), "sinh: the recursive relative error", [y, s, h, q])
            prove(T, st, both(q, rv("1/100000")), "sinh: the recursive error is small", [y, q, x]); prove(T, st, z3.And(f >= 0, f <= 3 + rv("12001/1000") * s * s), "sinh: amplification", [s, q, f])
            prove(T, st, r - sx == q * s * f, "sinh: the error is the recursive one, amplified", [r] and [x, sx, y, s, h, q, f])
            prove(T, st, (1 + y * y) * (3 + rv("12001/1000") * s * s) <= (1 + 9 * y * y) * (3 + 4 * s * s), "sinh: the relative error grows with the square of the argument", [y, s])
            Q = FReal("absrho"); st.pc.append(Q == Abs(q)); prove(T, st, z3.And(Q >= 0, Q <= R(y)), "sinh: size of the recursive error", [q, Q, y])
            prove(T, st, Q * f <= R(x) * (3 + 4 * s * s), "sinh: relative error after one more step", [Q, f, y, x, s]); A = FReal("err"); st.pc.append(A == r - sx)
            prove(T, st, s > 0, "sinh: the hyperbolic sine of a third is positive", [y, s]); prove(T, st, f >= 0, "sinh: the amplification is not negative", [s, q, f])
            prove(T, st, A == q * s * f, "sinh: the error in terms of the relative one", [x, sx, y, s, h, q, f, A])
            prove(T, st, Abs(A) == Q * s * f, "sinh: size of the error", [A, q, Q, s, f]); prove(T, st, Q * s * f <= R(x) * sx, "sinh: relative error against the hyperbolic sine", [Q, s, f, x, sx]); prove(T, st, Abs(A) <= R(x) * sx, "sinh: accuracy", [A, Q, s, f, x, sx])
        else: prove(T, st, Abs(r - sx) <= R(x) * sx, "sinh: accuracy without recursion", [x, sx])
    T.post(T.call(SINH_H, x), post)
def hyp(T, st, a, x, sx, w):
    """sinh of an argument that is x or -x"""
    if T.e.entailed(st, S(a == x)): return sx
    if T.e.entailed(st, S(a == -x)): return -sx
    T.e.oblige(st, S(z3.Or(a == x, a == -x)), w + "the argument is x or -x"); return z3.If(a == x, sx, -sx)
@task(P, "sinh")
def t(T):
    e = start(T, *SINH_FACTS); x = FReal("x"); sx = FReal("sinh_x"); T.assume(both(x, 10)); T.assume(z3.And(z3.Implies(x >= 0, sx >= 0), z3.Implies(x <= 0, sx <= 0)))
    def make(e, st, fn, a, I):
        w = e.loc(I); e.oblige(st, S(z3.And(a[0] >= 0, a[0] <= 10)), w + "the argument is in the domain"); sa = hyp(T, st, a[0], x, sx, w); r = FReal("r"); st.pc.append(Abs(r - sa) <= R(x) * sa); return r
    e.contracts.append((re.compile(SNH), memo(T, make)))
    T.post(T.call("m_sinh", x), lambda st, r: prove(T, st, Abs(r - sx) <= SIN_ERR * Abs(sx), "sinh: relative error at most 0.00002"))
def good(r, x): return z3.And(r > 0, r * r - x <= rv("1/999") * (r * r), x - r * r <= rv("1/999") * (r * r))
def sqrt_contract(T):
    """cest::sqrt as proved for C20"""
    def make(e, st, fn, a, I):
        e.oblige(st, S(a[0] >= 0), e.loc(I) + "square root of a non-negative number"); r = FReal("root"); v = FReal("radicand"); st.pc.append(v == a[0]); st.pc.append(z3.If(v == 0, r == 0, good(r, v))); return r
    T.e.contracts.append((re.compile(r"cest::sqrt\(double\)"), memo(T, make)))
@task(P, "cosh")
def t(T):
    e = start(T, *SINH_FACTS); x = FReal("x"); sx, cx = FReal("sinh_x"), FReal("cosh_x"); T.assume(both(x, 10)); T.assume(z3.And(cx >= 1, cx * cx == 1 + sx * sx)); sqrt_contract(T)
    def make(e, st, fn, a, I):
        sa = hyp(T, st, a[0], x, sx, e.loc(I)); r = FReal("r"); st.pc.append(Abs(r - sa) <= SIN_ERR * Abs(sa)); return r
    e.contracts.append((re.compile(r"cest::sinh\(double\)"), memo(T, make)))
    T.post(T.call("m_cosh", x), lambda st, r: prove(T, st, Abs(r - cx) <= rv("6/10000") * cx, "cosh: relative error at most 0.0006"))

# ---------------------------------------------------------------- powers with a known exponent
def power(b, n):
    r = rv(1)
    for _ in range(n): r = r * b
    return r
def pow_contract(T, other=None):
    """cest::pow as proved for C20"""
    def make(e, st, fn, a, I):
        n = a[1]; n = n.as_signed_long() if z3.is_bv_value(n) else n.as_long() if z3.is_int_value(n) else n if isinstance(n, int) else None
        if n is None or not 0 <= n <= 64 or other is not None and z3.is_rational_value(z3.simplify(a[0])): return other(e, st, fn, a, I) if other else None
        return power(a[0], n)
    T.e.contracts.append((re.compile(r"cest::pow\(double, int\)"), make))
# ---------------------------------------------------------------- arctangent
ATAN_FACTS = ("|atan x - (x - x^3/3 + x^5/5)| <= |x|^7/7 for |x| <= 1", "atan is 1-Lipschitz and odd", "atan x = pi/6 + atan((x sqrt(3) - 1)/(sqrt(3) + x)) for x >= 0", "atan x = pi/2 - atan(1/x) for x > 0", "3.14159265358979 <= pi <= 3.14159265358980")
APH = r"cest::\(anonymous namespace\)::atan_poly_helper\(double, double, double, double\)"; AP = r"cest::\(anonymous namespace\)::atan_poly\(double\)"; AI = r"cest::\(anonymous namespace\)::atan_identity\(double\)"; AC = r"cest::\(anonymous namespace\)::atan_cmplmntry\(double\)"
NS = "cest::(anonymous namespace)::"
def aph_pre(n, d, t): return z3.And(t >= 0, t <= rv("1/10"), d >= 1, both(n, rv("11/100000")))
@task(P, "atan: series")
def t(T):
    e = start(T, *ATAN_FACTS); res, n, d, dl = FReal("res"), FReal("num"), FReal("den"), FReal("delta"); T.assume(aph_pre(n, d, dl)); N = FReal("absnum"); T.assume(N == Abs(n)); g = {}
    def make(e, st, fn, a, I):
        w = e.loc(I); rs, n2, d2, t2, h = FReal("res2"), FReal("num2"), FReal("den2"), FReal("delta2"), FReal("r")
        for c in (rs == a[0], n2 == a[1], d2 == a[2], t2 == a[3]): st.pc.append(c)
        V = [res, n, d, dl, N, rs, n2, d2, t2]; prove(T, st, t2 <= rv("1/10"), w + "series: the variable stays small", V); prove(T, st, t2 >= 0, w + "series: the variable stays non-negative", V); prove(T, st, d2 >= 1, w + "series: the denominator stays positive", V)
        prove(T, st, both(n2, N / 2), w + "series: the recursion makes the next numerator at most half as large", V); prove(T, st, res >= rv("1/1000000"), w + "series: the recursion only goes on above a threshold", V); prove(T, st, aph_pre(n2, d2, t2), w + "series: the recursive arguments are in the domain", V)
        k2 = FReal("bound2"); st.pc.append(k2 * d2 == Abs(n2)); st.pc.append(both(h - rs, k2)); g.update(V=V + [h, k2], h=h); return h
    e.contracts.append((re.compile(APH), memo(T, make)))
    def post(st, r):
        if "h" in g and str(g["h"]) in consts(r):
            V = g["V"]; prove(T, st, both((r - res) * d, N), "atan: the remaining terms are at most the first of them", V)
        else: prove(T, st, both((r - res) * d, N), "atan: the remaining terms are at most the first of them (none added)", [res, n, d, dl, N])
    T.post(T.call(NS + "atan_poly_helper(double, double, double, double)", res, n, d, dl), post)
def T5(x): return x - x * x * x / 3 + power(x, 5) / 5
AP_ERR = rv("3/100000")
@task(P, "atan: polynomial")
def t(T):
    e = start(T, *ATAN_FACTS); x = FReal("x"); A = FReal("atan_x"); T.assume(both(x, rv("27/100"))); X = FReal("absx"); T.assume(X == Abs(x)); p7 = power(X, 7); T.assume(both(A - T5(x), p7 / 7)); pow_contract(T)
    def make(e, st, fn, a, I):
        w = e.loc(I); n, d, dl, rs, r = FReal("num"), FReal("den"), FReal("delta"), FReal("res"), FReal("r")
        for c in (rs == a[0], n == a[1], d == a[2], dl == a[3]): st.pc.append(c)
        V = [x, X, n, d, dl]; prove(T, st, aph_pre(n, d, dl), w + "the series is started in its domain", V); prove(T, st, both(n, d * rv("105/1000000") / 7), w + "the first neglected term is small", V); st.pc.append(both((r - rs) * d, Abs(n))); prove(T, st, both(r - rs, rv("15/1000000")), w + "what the series adds is small", [n, d, r, rs]); return r
    e.contracts.append((re.compile(APH), memo(T, make)))
    def post(st, r):
        prove(T, st, p7 <= rv("105/1000000"), "atan: size of the seventh power", [X, x]); prove(T, st, both(A - T5(x), rv("15/1000000")), "atan: error of the fifth-order polynomial", [x, X, A])
        prove(T, st, both(r - A, AP_ERR), "atan: polynomial within 0.00003 for small arguments")
    T.post(T.call(NS + "atan_poly(double)", x), post)
AI_ERR = rv("6/100000"); ATAN_ERR = rv("1/10000")
@task(P, "atan: reduction to small arguments")
def t(T):
    e = start(T, *ATAN_FACTS); x = FReal("x"); A, A0, q, z0 = FReal("atan_x"), FReal("atan_z0"), FReal("root3"), FReal("z0"); T.assume(z3.And(x >= 0, x <= rv("1"))); st0 = T.st; T.assume(z3.And(q > 0, q * q == 3)); T.assume(z3.And(z0 * (q + x) == x * q - 1)); p = PI(st0); T.assume(A == p / 6 + A0)
    def make(e, st, fn, a, I):
        w = e.loc(I); z, Az, r = FReal("z"), FReal("atan_z"), FReal("r"); st.pc.append(z == a[0]); prove(T, st, both(z, rv("27/100")), w + "the reduced argument is small", [x, z]); st.pc.append(both(r - Az, AP_ERR))
        if e.entailed(st, S(a[0] == x)): st.pc.append(Az == A); return r
        prove(T, st, both(q - rv("1732050807/1000000000"), rv("1/100000000")), w + "the square root of three", [q]); prove(T, st, both(z - z0, rv("29/1000000")), w + "the reduced argument is the one of the identity", [x, z, q, z0]); st.pc.append(both(Az - A0, rv("29/1000000"))); return r
    e.contracts.append((re.compile(AP), memo(T, make)))
    T.post(T.call(NS + "atan_identity(double)", x), lambda st, r: prove(T, st, both(r - A, AI_ERR), "atan: within 0.00006 up to one"))
@task(P, "atan: complement")
def t(T):
    e = start(T, *ATAN_FACTS); x = FReal("x"); A, B_ = FReal("atan_x"), FReal("atan_1/x"); T.assume(x >= 0); p = PI(T.st); T.assume(z3.Implies(x > 0, A == p / 2 - B_))
    def make(e, st, fn, a, I):
        w = e.loc(I); z, r = FReal("z"), FReal("r"); st.pc.append(z == a[0]); prove(T, st, z3.And(z >= 0, z <= 1), w + "the argument is in the domain", [x, z])
        if e.entailed(st, S(a[0] == x)): st.pc.append(both(r - A, AI_ERR)); return r
        prove(T, st, z3.And(x > 0, z * x == 1), w + "the argument is the reciprocal", [x, z]); st.pc.append(both(r - B_, AI_ERR)); return r
    e.contracts.append((re.compile(AI), memo(T, make)))
    T.post(T.call(NS + "atan_cmplmntry(double)", x), lambda st, r: prove(T, st, both(r - A, rv("61/1000000")), "atan: within 0.000061 for non-negative arguments"))
@task(P, "atan")
def t(T):
    e = start(T, *ATAN_FACTS); x = FReal("x"); A = FReal("atan_x")
    def make(e, st, fn, a, I):
        w = e.loc(I); r = FReal("r"); e.oblige(st, S(a[0] >= 0), w + "the argument is not negative")
        if e.entailed(st, S(a[0] == x)): st.pc.append(both(r - A, rv("61/1000000"))); return r
        e.oblige(st, S(a[0] == -x), w + "the argument is x or -x"); st.pc.append(both(r + A, rv("61/1000000"))); return r
    e.contracts.append((re.compile(AC), memo(T, make)))
    T.post(T.call("m_atan", x), lambda st, r: prove(T, st, both(r - A, rv("7/100000")), "atan: within 0.00007"))
@task(P, "atan2")
def t(T):
    e = start(T, *ATAN_FACTS); x, y = FReal("x"), FReal("y"); A = FReal("atan_y/x"); p = PI(T.st)
    def make(e, st, fn, a, I):
        w = e.loc(I); z, r = FReal("z"), FReal("r"); st.pc.append(z == a[0]); prove(T, st, z3.And(x != 0, z * x == y), w + "the argument is y/x", [x, y, z]); st.pc.append(both(r - A, rv("7/100000"))); return r
    e.contracts.append((re.compile(r"cest::atan\(double\)"), memo(T, make)))
    want = z3.If(x > 0, A, z3.If(x < 0, z3.If(y >= 0, A + p, A - p), z3.If(y > 0, p / 2, z3.If(y < 0, -p / 2, 0))))
    T.post(T.call("m_atan2", y, x), lambda st, r: prove(T, st, both(r - want, ATAN_ERR), "atan2: within 0.0001 in every quadrant"))

# ---------------------------------------------------------------- exponential
EXP_FACTS = ("0 <= e^a - T7(a) <= a^8/40320 for -1 <= a <= 0 and <= a^8/24000 for 0 < a <= 1/2, where T7 is the Taylor polynomial", "e^a >= 0.3678 for a >= -1", "e^(m + a) = e^m e^a", "b^n is within a relative 10^-9 of e^n for 2.718281828459045 <= b <= 2.718281828459046 and |n| <= 1000")
EH = r"cest::\(anonymous namespace\)::exp_helper\(double\)"; EH_ERR = rv("7/100000")
def T7(a): return 1 + a + power(a, 2) / 2 + power(a, 3) / 6 + power(a, 4) / 24 + power(a, 5) / 120 + power(a, 6) / 720 + power(a, 7) / 5040
@task(P, "exp: polynomial")
def t(T):
    e = start(T, *EXP_FACTS); x = FReal("x"); E = FReal("exp_x"); T.assume(z3.And(x >= -1, x <= rv("1/2"))); pow_contract(T); p8 = FReal("x8"); T.assume(z3.And(E - T7(x) >= 0, E - T7(x) <= z3.If(x <= 0, p8 / 40320, p8 / 24000))); T.assume(E >= rv("3678/10000")); T.assume(p8 == power(x, 8)); T.assume(z3.Implies(x > 0, E >= 1))
    def post(st, r):
        prove(T, st, p8 <= 1, "exp: size of the eighth power", [x, p8]); prove(T, st, z3.Implies(x > 0, p8 <= rv("1/256")), "exp: size of the eighth power for positive arguments", [x, p8]); D = FReal("t7"); st.pc.append(D == T7(x)); prove(T, st, z3.And(E - D >= 0, E - D <= z3.If(x <= 0, p8 / 40320, p8 / 24000)), "exp: Taylor remainder", [x, D, E, p8])
        R_ = FReal("r"); st.pc.append(R_ == r); prove(T, st, both(R_ - D, rv("1/100000000")), "exp: the value is the Taylor polynomial of order seven", [x, D, R_]); prove(T, st, both(R_ - E, EH_ERR * E), "exp: polynomial within a relative 0.00007", [x, D, E, p8, R_])
    T.post(T.call(NS + "exp_helper(double)", x), post)
@task(P, "exp")
def t(T):
    e = start(T, *EXP_FACTS); x = FReal("x"); E = FReal("exp_x"); T.assume(both(x, 700)); T.assume(E > 0); pw, ex = [], []
    def link(st, n, En, a, Ea):
        if e.entailed(st, S(n + a == x)): st.pc.append(E == En * Ea)
    def pother(e, st, fn, a, I):
        b = z3.simplify(a[0])
        if not (z3.is_rational_value(b) and 2718281828459045 <= b.as_fraction() * 10 ** 15 <= 2718281828459046): return None
        n = e.sgn(st, a[1], 32); n = rv(n) if isinstance(n, int) else z3.ToReal(n); e.oblige(st, S(both(n, 1000)), e.loc(I) + "the exponent is small"); En, r = FReal("exp_n"), FReal("power"); st.pc.append(En > 0); st.pc.append(both(r - En, rv("1/1000000000") * En)); pw.append((n, En))
        for (a_, Ea) in ex: link(st, n, En, a_, Ea)
        return r
    pow_contract(T, pother)
    def make(e, st, fn, a, I):
        e.oblige(st, S(z3.And(a[0] >= -1, a[0] <= rv("1/2"))), e.loc(I) + "the fraction is in the domain of the polynomial"); Ea, r = FReal("exp_a"), FReal("r"); st.pc.append(Ea > 0); st.pc.append(both(r - Ea, EH_ERR * Ea)); ex.append((a[0], Ea))
        for (n, En) in pw: link(st, n, En, a[0], Ea)
        return r
    e.contracts.append((re.compile(EH), make))
    def post(st, r):
        V = [v for k, v in consts(r).items()] + [v for (_, v) in pw + ex] + [E]; prove(T, st, both(r - E, rv("1/10000") * E), "exp: within a relative 0.0001", V)
    T.post(T.call("m_exp", x), post)

# ---------------------------------------------------------------- logarithm
LOG_FACTS = ("ln(a b) = ln a + ln b", "|ln a - ln b| <= |a - b| / min(a, b)", "ln((1 + y)/(1 - y)) = 2 artanh y", "0 <= artanh y - (y + y^3/3 + ... + y^11/11) <= y^13/13/(1 - y^2) for 0 <= y < 1 (and symmetric)", "0 <= ln a <= 2.303 for 1 <= a <= 10", "|ln x| <= 746 for positive finite doubles", "2.302585092 <= ln 10 <= 2.302585093")
MAN = r"cest::\(anonymous namespace\)::mantissa\(double\)"; EXH = r"cest::\(anonymous namespace\)::exponent_helper\(double, int\)"; LH2 = r"cest::\(anonymous namespace\)::log_helper2\(double\)"
L10_LO, L10_HI = rv("2302585092/1000000000"), rv("2302585093/1000000000"); U = rv("1/1000000000000000")
def L10(st): p = z3.Real("LN10"); st.pc.append(z3.And(p >= L10_LO, p <= L10_HI)); return p
DENORM = z3.RealVal("4/" + str(10 ** 324)); DMAX = z3.RealVal(18 * 10 ** 307)
def decade(T, st, x, E, a, w):
    """one decimal step: E(x) = E(x / 10) + 1 for x >= 10, E(x) = E(10 x) - 1 for x < 1, with x / 10 computed as x times the double 0.1; gives E(a)"""
    e = T.e; Ea = FReal("decades_a"); tenth = z3.RealVal("3602879701896397/36028797018963968")
    e.oblige(st, S(z3.And(x > 0, z3.Or(x < 1, x >= 10))), w + "the number is scaled only outside [1, 10)")
    e.oblige(st, S(z3.If(x >= 10, a == x * tenth, a == 10 * x)), w + "the number is scaled by ten towards [1, 10)"); st.pc.append(Ea == z3.If(x >= 10, E - 1, E + 1)); st.pc.append(z3.And(z3.Implies(a >= 1, Ea >= 0), z3.Implies(a < 10, Ea <= 0), z3.Implies(z3.And(a >= 1, a < 10), Ea == 0))); return Ea
def esign(x, E): return z3.And(z3.Implies(x >= 1, E >= 0), z3.Implies(x < 10, E <= 0))
def man_post(st, m, lm, lx, E, p): st.pc.append(z3.And(m >= 1, m < 10)); st.pc.append(both(lm - lx + E * p, U * Abs(E)))
@task(P, "log: mantissa")
def t(T):
    e = start(T, *LOG_FACTS); x = FReal("x"); L, E = FReal("ln_x"), FReal("decades"); p = L10(T.st); T.assume(x > 0); T.assume(x < HUGE); T.assume(z3.And(esign(x, E), z3.Implies(z3.And(x >= 1, x < 10), E == 0))); lms = {}
    def make(e, st, fn, a, I):
        w = e.loc(I); Ea = decade(T, st, x, E, a[0], w); e.oblige(st, S(z3.And(a[0] > 0, a[0] < HUGE)), w + "the scaled number is positive"); La, m, lm = FReal("ln_a"), FReal("m"), FReal("ln_m")
        st.pc.append(both(La - L + z3.If(x >= 10, p, -p), U)); man_post(st, m, lm, La, Ea, p); lms[str(m)] = lm; return m
    e.contracts.append((re.compile(MAN), memo(T, make)))
    def post(st, r):
        lm = [lms[k] for k in consts(r) if k in lms]; lm = lm[0] if lm else L; prove(T, st, z3.And(r >= 1, r < 10), "log: the mantissa is in [1, 10)")
        if lm is not L: e.oblige(st, S(r == [v for k, v in consts(r).items() if k in lms][0]), "log: the mantissa is the recursive one")
        else: e.oblige(st, S(r == x), "log: numbers in [1, 10) are their own mantissa")
        prove(T, st, both(lm - L + E * p, U * Abs(E)), "log: the mantissa differs from the number by a power of ten")
    T.post(T.call(NS + "mantissa(double)", x), post)
@task(P, "log: exponent")
def t(T):
    e = start(T, *LOG_FACTS); x = FReal("x"); E = FReal("decades"); k = FInt("k"); k0 = e.canon(T.st, k, 32); T.assume(z3.And(k >= -1000, k <= 1000)); K_ = z3.ToReal(k); T.assume(x > 0); T.assume(x < HUGE); T.assume(z3.And(esign(x, E), z3.Implies(z3.And(x >= 1, x < 10), E == 0))); T.assume(both(K_ + E, 1000))
    def make(e, st, fn, a, I):
        w = e.loc(I); Ea = decade(T, st, x, E, a[0], w); e.oblige(st, S(z3.And(a[0] > 0, a[0] < HUGE)), w + "the scaled number is positive"); k2 = e.sgn(st, a[1], 32); e.oblige(st, S(k2 == k + z3.If(x >= 10, 1, -1)), w + "one decimal step is counted"); r = FInt("r"); e.oblige(st, S(z3.And(both(k2, 1000), both(z3.ToReal(k2) + Ea, 1000))), w + "the count stays small"); st.pc.append(z3.ToReal(r) == z3.ToReal(k2) + Ea); st.pc.append(both(r, 1000)); return e.canon(st, r, 32)
    e.contracts.append((re.compile(EXH), make))
    T.post(T.call(NS + "exponent_helper(double, int)", x, k0), lambda st, r: e.oblige(st, S(z3.ToReal(e.sgn(st, r, 32)) == K_ + E), "log: the exponent counts the decimal steps of the mantissa"))
def S11(y): return y + power(y, 3) / 3 + power(y, 5) / 5 + power(y, 7) / 7 + power(y, 9) / 9 + power(y, 11) / 11
LH_ERR = rv("47/1000000")
@task(P, "log: series")
def t(T):
    e = start(T, *LOG_FACTS); y = FReal("y"); A = FReal("artanh_y"); T.assume(z3.And(y >= rv("-1/100"), y <= rv("5206/10000"))); pow_contract(T); D, Y, rem = FReal("s11"), FReal("absy"), FReal("rem"); T.assume(Y == Abs(y)); p13 = FReal("y13"); T.assume(p13 == power(Y, 13)); T.assume(D == S11(y)); T.assume(rem * (1 - Y * Y) * 13 == p13); T.assume(both(A - D, rem))
    def post(st, r):
        prove(T, st, z3.And(Y >= 0, Y <= rv("5206/10000")), "log: size of the series variable", [y, Y]); prove(T, st, p13 <= rv("207/1000000"), "log: size of the thirteenth power", [Y, p13]); prove(T, st, 1 - Y * Y >= rv("72/100"), "log: the remainder's denominator", [Y]); prove(T, st, both(rem, rv("47/2000000") - rv("1/10000000")), "log: the remainder of the series", [rem, p13, Y]); R_ = FReal("r"); st.pc.append(R_ == r); prove(T, st, both(R_ - 2 * D, rv("1/10000000")), "log: the value is twice the sum of six terms", [y, D, R_]); prove(T, st, both(R_ - 2 * A, LH_ERR), "log: series within 0.000047 of twice the artanh", [R_, D, A, rem])
    T.post(T.call(NS + "log_helper2(double)", y), post)
LOG_ERR = rv("12/10000")
@task(P, "log")
def t(T):
    e = start(T, *LOG_FACTS); x = FReal("x"); L, E = FReal("ln_x"), FReal("decades"); T.assume(z3.And(x >= 0, x <= DMAX, z3.Or(x == 0, x >= DENORM))); T.assume(both(L, 746)); p = L10(T.st); T.assume(z3.Implies(x > 0, esign(x, E))); g = {}
    def root(e, st, fn, a, I):
        e.oblige(st, S(a[0] >= 0), e.loc(I) + "square root of a non-negative number"); r, v, lr, la = FReal("root"), FReal("radicand"), FReal("ln_root"), FReal("ln_radicand"); st.pc.append(v == a[0]); st.pc.append(z3.If(v == 0, r == 0, good(r, v))); g.update(root=r, v=v, lr=lr); 
        if e.entailed(st, S(v == g.get("m", rv(-1)))): st.pc.append(la == g["lm"])
        V = [r, v]; prove(T, st, z3.And(v >= 1, v < 10), "log: the radicand is in [1, 10)", [v, g.get("m", v)]); q = FReal("root2"); st.pc.append(q == r * r); prove(T, st, z3.And(v - q <= q / 999, q - v <= q / 999), "log: accuracy of the square root", V + [q]); prove(T, st, z3.And(r >= rv("9989/10000"), r <= rv("317/100")), "log: size of the square root", V)
        mn = FReal("least"); st.pc.append(mn == z3.If(q < v, q, v)); df = FReal("gap"); st.pc.append(df * mn == Abs(q - v)); st.pc.append(both(2 * lr - la, df)); prove(T, st, df <= rv("1003/1000000"), "log: accuracy of the logarithm of the square root", [q, v, mn, df]); return r
    def man(e, st, fn, a, I):
        w = e.loc(I); e.oblige(st, S(z3.And(a[0] == x, x > 0)), w + "the mantissa of the argument"); m, lm = FReal("m"), FReal("ln_m"); man_post(st, m, lm, L, E, p); st.pc.append(z3.And(lm >= 0, lm <= rv("2303/1000"))); g.update(m=m, lm=lm); prove(T, st, both(E, 400), w + "the number of decimal steps is small", [E, L, lm, m, p]); return m
    def exh(e, st, fn, a, I):
        w = e.loc(I); e.oblige(st, S(z3.And(a[0] == x, x > 0)), w + "the exponent of the argument"); k = e.sgn(st, a[1], 32); k = rv(k) if isinstance(k, int) else z3.ToReal(k); g["h"] = True
        # |E| <= 400 follows from the mantissa's contract for some mantissa of x
        m, lm = FReal("m"), FReal("ln_m"); man_post(st, m, lm, L, E, p); st.pc.append(z3.And(lm >= 0, lm <= rv("2303/1000"))); prove(T, st, both(E, 400), w + "the number of decimal steps is small", [E, L, lm, m, p]); e.oblige(st, S(z3.And(both(k, 1000), both(k + E, 1000))), w + "the count stays small"); r = FInt("r"); st.pc.append(z3.ToReal(r) == k + E); st.pc.append(both(r, 1000)); g.setdefault("ks", []).append(r); return e.canon(st, r, 32)
    def lh(e, st, fn, a, I):
        w = e.loc(I); y, r, A = FReal("y"), FReal("r"), FReal("artanh_y"); st.pc.append(y == a[0]); R_ = g.get("root", rv(1)); prove(T, st, z3.And(y >= rv("-1/100"), y <= rv("5206/10000")), w + "the series variable is in its domain", [y, R_]); st.pc.append(both(r - 2 * A, LH_ERR))
        prove(T, st, y * (R_ + 1) == R_ - 1, w + "the series variable is (a - 1)/(a + 1)", [y, R_]); st.pc.append(2 * A == g["lr"]); return r
    for rx, h in ((r"cest::sqrt\(double\)", root), (MAN, man), (LH2, lh)): e.contracts.append((re.compile(rx), memo(T, h)))
    e.contracts.append((re.compile(EXH), exh))
    def post(st, r):
        if e.entailed(st, S(x == 0)): e.oblige(st, S(r == z3.Real("fp_ninf")), "log: the logarithm of zero is minus infinity"); return
        R_ = FReal("res"); st.pc.append(R_ == retype(e, st, r, g.get("ks", []))); prove(T, st, both(R_ - L, LOG_ERR), "log: within 0.0012")
    T.post(T.call("m_log", x), post)
@task(P, "log: negative numbers")
def t(T):
    e = start(T); x = FReal("x"); T.assume(z3.And(x < 0, x >= -DMAX))
    T.post(T.call("m_log", x), lambda st, r: e.oblige(st, S(r == z3.Real("fp_nan")), "log: the logarithm of a negative number is not a number"))
