"""Contracts of the exact math functions: abs/fabs, floor/ceil, integer power, square root."""
from spec import *
HARNESS = "cmath"
P = "C20"
def rv(x): return z3.RealVal(x)
for nm in ("m_abs", "m_fabs"):
    @task(P, nm)
    def t(T, nm=nm):
        T.e.rounding = True; T.done_externs(); x = FReal("x")
        T.post(T.call(nm, x), lambda st, r: T.must(st, S(r == z3.If(x < 0, -x, x)), "the absolute value"))
def sint(r): return z3.If(zi(r) < (1 << 31), zi(r), zi(r) - (1 << 32))
for nm, up in (("m_floor", 0), ("m_ceil", 1)):
    @task(P, nm)
    def t(T, nm=nm, up=up):
        T.e.rounding = True; T.done_externs(); x = FReal("x")
        if up: T.assume(z3.And(x > rv(-(1 << 31) - 1), x <= rv((1 << 31) - 1)))
        else: T.assume(z3.And(x >= rv(-(1 << 31)), x < rv(1 << 31)))
        def post(st, r):
            v = z3.ToReal(sint(r))
            T.must(st, z3.And(v >= x, v - 1 < x) if up else z3.And(v <= x, v + 1 > x), "the nearest integer not " + ("below" if up else "above") + " the argument")
        T.post(T.call(nm, x), post)

# ---------------------------------------------------------------- integer powers
PW = z3.Function("POWER", z3.RealSort(), z3.IntSort(), z3.RealSort())
def pow_setup(T, b):
    """POWER(b,0)=1, POWER(b,k+1)=b*POWER(b,k); lemmas by induction: POWER(b,2k)=POWER(b,k)^2 = POWER(b*b,k); non-zero for b != 0"""
    e = T.e; s = T.st; k = FInt("k")
    h, h2, c = FReal("h"), FReal("h2"), FReal("c")          # POWER(b,k), POWER(b,2k), POWER(b*b,k)
    s1 = s.copy(); e.assume(s1, h2 == h * h)
    e.oblige(s1, b * (b * h2) == (b * h) * (b * h), "lemma: POWER(b,2k) = POWER(b,k)^2 (induction step)")
    s2 = s.copy(); e.assume(s2, c == h2)
    e.oblige(s2, (b * b) * c == b * (b * h2), "lemma: POWER(b*b,k) = POWER(b,2k) (induction step)")
    s3 = s.copy(); e.assume(s3, z3.And(b != 0, h != 0))
    e.oblige(s3, b * h != 0, "lemma: powers of a non-zero base are not zero (induction step)")
def sg(T, st, n): return T.e.sgn(st, n, 32)
def facts(e, st, b, n):
    """definition and lemma instances at the exponent n (n any sign)"""
    n = zi(n); st.pc.append(zb(S(PW(b, 0) == 1))); st.pc.append(PW(b, 1) == b)
    st.pc.append(z3.Implies(n >= 1, PW(b, n) == b * PW(b, S2(n - 1))))
    st.pc.append(z3.Implies(n >= 0, PW(b, n + 1) == b * PW(b, n)))
    st.pc.append(z3.Implies(b != 0, z3.And(PW(b, n) != 0, PW(b, n - 1) != 0, PW(b, n + 1) != 0)))
    q = n / 2; h = PW(b, q)
    st.pc.append(z3.Implies(n >= 0, PW(b, S2(2 * q)) == h * h))
    st.pc.append(z3.Implies(z3.And(n >= 0, n % 2 == 0), PW(b, n) == h * h))
    st.pc.append(z3.Implies(z3.And(n >= 0, n % 2 == 1), PW(b, n) == b * (h * h)))
    st.pc.append(z3.Implies(z3.And(n >= 0, b != 0), h != 0))
def S2(x): return z3.simplify(x)
@task(P, "m_pow")
def t(T):
    T.done_externs(); e = T.e; b = FReal("b"); n = T.int("n", 32); pow_setup(T, b)
    s = sint(n)
    T.assume(z3.Implies(s < 0, b != 0)); facts(e, T.st, b, s); facts(e, T.st, b, -s); facts(e, T.st, b, -s - 1)
    def h(e, st, fn, a, I):
        if e.depth <= 1: return None
        m = e.sgn(st, a[1], 32); w = e.loc(I)
        neg = z3.If(s < 0, -s, s); mm = z3.If(zi(m) < 0, -zi(m), zi(m))
        e.oblige(st, S(z3.And(mm < neg)), w + "the recursion terminates: the exponent's magnitude decreases")
        facts(e, st, b, m)
        if e.entailed(st, S(a[0] == b)):
            return If(Le(0, m), PW(b, zi(m)), 1 / PW(b, -zi(m)))
        e.oblige(st, S(a[0] == b * b), w + "the recursion uses the base or its square")
        if not e.entailed(st, Le(0, m)): raise Unsupported("negative power of the squared base")
        st.pc.append(PW(b * b, zi(m)) == PW(b, 2 * zi(m))); facts(e, st, b, Mul(2, m))
        return PW(b, S2(2 * zi(m)))
    e.contracts.append((re.compile(r"cest::pow\(double, int\)"), h))
    def post(st, r):
        if T.split(st, s < 0):
            T.must(st, S(r * PW(b, -s) == 1), "the reciprocal of the power for a negative exponent")
        else: T.must(st, S(r == PW(b, s)), "the power equals repeated multiplication")
    T.post(T.call("m_pow", b, n), post)

# ---------------------------------------------------------------- square root
def good(r, x): return z3.And(r > 0, r * r - x <= rv("1/999") * (r * r), x - r * r <= rv("1/999") * (r * r))
HELP = r"cest::\(anonymous namespace\)::sqrt_helper\(double, double\)"
@task(P, "m_sqrt_helper")
def t(T):
    T.done_externs(); e = T.e; x = FReal("x"); g = FReal("g"); T.assume(z3.And(x > 0, g > 0))
    def h(e, st, fn, a, I):
        if e.depth <= 1: return None
        w = e.loc(I); g2 = a[1]; q = x / g
        st.pc.append(q * g == x)
        e.oblige(st, S(a[0] == x), w + "the recursion keeps the argument")
        e.oblige(st, S(g2 > 0), w + "the next guess is positive")
        e.oblige(st, S(g2 * g2 >= x), w + "every guess after the first is at least the root")
        e.oblige(st, S(z3.Implies(g * g >= x, g2 <= g * (1 - rv("1/100000000")))), w + "the recursion terminates: guesses shrink geometrically towards the root")
        r = FReal("root"); e.assume(st, good(r, x)); return r
    e.contracts.append((re.compile(HELP), h))
    def post(st, r):
        st.pc.append((x / g) * g == x)
        T.must(st, good(r, x), "accuracy: r^2 is within 1/999 of the argument")
    T.post(T.call("m_sqrt_helper", x, g), post)
@task(P, "m_sqrt")
def t(T):
    T.done_externs(); e = T.e; x = FReal("x"); T.assume(x >= 0)
    T.assume(x != z3.Real("fp_inf")); e.assumptions.add("infinite and NaN arguments are outside the contracts of real functions (covered by the replay driver only)")
    def h(e, st, fn, a, I):
        w = e.loc(I)
        e.oblige(st, S(z3.And(a[0] == x, a[0] > 0, a[1] > 0)), w + "the iteration starts from a positive argument and guess")
        r = FReal("root"); e.assume(st, good(r, x)); return r
    e.contracts.append((re.compile(HELP), h))
    T.post(T.call("m_sqrt", x), lambda st, r: T.must(st, z3.If(x == 0, r == 0, good(r, x)), "sqrt(0) = 0, otherwise r^2 is within 1/999 of the argument"))
