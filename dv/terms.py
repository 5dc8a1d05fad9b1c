"""Term helpers: integers are Python ints or z3 Int terms, booleans Python bools or z3 Bool terms."""
import z3
Z = z3
_simp = z3.simplify

def isc(x): return isinstance(x, (int, bool)) and not isinstance(x, z3.ExprRef)
def S(x):
    """simplify; numerals become Python ints, true/false Python bools"""
    if not isinstance(x, z3.ExprRef): return x
    x = _simp(x)
    if z3.is_int_value(x): return x.as_long()
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    return x
def zi(x): return z3.IntVal(x) if isinstance(x, int) else x
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def zv(x):
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    return x
def Eq(a, b):
    if isinstance(a, int) and isinstance(b, int): return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return True
    return S(zv(a) == zv(b))
def Ne(a, b): return Not(Eq(a, b))
def Not(a):
    if isinstance(a, bool): return not a
    return S(z3.Not(a))
def And(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if not x: return False
            continue
        r.append(x)
    if not r: return True
    if len(r) == 1: return r[0]
    return z3.And(*r)
def Or(*xs):
    r = []
    for x in xs:
        if isinstance(x, bool):
            if x: return True
            continue
        r.append(x)
    if not r: return False
    if len(r) == 1: return r[0]
    return z3.Or(*r)
def Implies(a, b): return Or(Not(a), b)
def If(c, a, b):
    if isinstance(c, bool): return a if c else b
    if isc(a) and isc(b) and a == b and type(a) == type(b): return a
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return a
    return z3.If(c, zv(a), zv(b))
def Lt(a, b):
    if isinstance(a, int) and isinstance(b, int): return a < b
    return S(zi(a) < zi(b))
def Le(a, b):
    if isinstance(a, int) and isinstance(b, int): return a <= b
    return S(zi(a) <= zi(b))
def Add(a, b):
    if isinstance(a, int):
        if a == 0: return b
        if isinstance(b, int): return a + b
    elif isinstance(b, int) and b == 0: return a
    return S(zi(a) + zi(b))
def Sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return S(zi(a) - zi(b))
def Mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    return S(zi(a) * zi(b))
def Div(a, b):
    if isinstance(a, int) and isinstance(b, int) and b > 0: return a // b
    return S(zi(a) / zi(b))
def Mod(a, b):
    if isinstance(a, int) and isinstance(b, int) and b > 0: return a % b
    return S(zi(a) % zi(b))
def InRange(lo, x, hi): return And(Le(lo, x), Lt(x, hi))

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(self, obj, off=0): self.obj = obj; self.off = off
    def __repr__(self): return f"Ptr({self.obj},{self.off})"
NULL = Ptr(0, 0)
def PEq(a, b): return And(Eq(a.obj, b.obj), Eq(a.off, b.off))

_n = [0]
def fresh_name(p):
    _n[0] += 1; return f"{p}!{_n[0]}"
def FInt(p="i"): return z3.Int(fresh_name(p))
def FBool(p="b"): return z3.Bool(fresh_name(p))
def FReal(p="r"): return z3.Real(fresh_name(p))
def FFun(p, *sorts): return z3.Function(fresh_name(p), *sorts)

def subst(x, pairs):
    """substitute z3 constants in a value (term, Ptr, tuple)"""
    if isinstance(x, Ptr): return Ptr(subst(x.obj, pairs), subst(x.off, pairs))
    if isinstance(x, tuple): return tuple(subst(y, pairs) for y in x)
    if isinstance(x, z3.ExprRef): return S(z3.substitute(x, *[(a, zv(b)) for a, b in pairs]))
    return x
def VEq(a, b):
    if isinstance(a, Ptr): return PEq(a, b)
    if isinstance(a, tuple): return And(*[VEq(x, y) for x, y in zip(a, b)])
    return Eq(a, b)
def consts_of(x, acc=None):
    acc = set() if acc is None else acc
    if isinstance(x, Ptr): consts_of(x.obj, acc); consts_of(x.off, acc)
    elif isinstance(x, tuple):
        for y in x: consts_of(y, acc)
    elif isinstance(x, z3.ExprRef):
        seen = set(); st = [x]
        while st:
            t = st.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(t)
            if z3.is_quantifier(t): st.append(t.body())
            else: st.extend(t.children())
    return acc
