"""Contracts of cest::queue over the sequence model of its container (cest::deque): oldest element first."""
from spec import *
import deq
from deq import setup, elemarg, slot, same, keep
HARNESS = "queue"; P = "C13"
def q(T):
    R = setup(T)
    if T.cval("Q_c") or T.cval("Q_sizeof") != R.K["D_sizeof"]: raise Unsupported("queue is not just its container")
    return R
def qc(T): R = q(T); R.contracts(T.e); return R
for fn, mv in (("q_push", 0), ("q_push_m", 1)):
    for own in (0, 1):
        if own and mv: continue
        @task(P, f"{fn}[{'own element' if own else 'other element'}]")
        def t(T, fn=fn, mv=mv, own=own):
            R = q(T); l = R.make("q"); x, v = elemarg(T, R, l, own)
            T.post(T.call(fn, l.p, x), lambda st, r: R.check(st, l.p, Add(l.n, 1), lambda i: If(Eq(i, l.n), v, l.S(i)), "push: appended as the newest"))
@task(P)
def q_pop(T): R = q(T); l = R.make("q"); T.assume(Lt(0, l.n)); T.post(T.call("q_pop", l.p), lambda st, r: R.check(st, l.p, Sub(l.n, 1), lambda i: l.S(Add(i, 1)), "pop: removes the oldest"))
@task(P)
def q_ctor(T): R = q(T); p = R.fresh("q"); T.post(T.call("q_ctor", p), lambda st, r: R.check(st, p, 0, lambda i: -1, "new queue is empty"))
for fn in ("q_ctor_cont", "q_ctor_cont_m", "q_ctor_copy"):
    @task(P, fn)
    def t(T, fn=fn): R = qc(T); s = R.make("src"); p = R.fresh("q"); T.post(T.call(fn, p, s.p), lambda st, r: (same(T, R, st, p, s.n, s.S, "copies the container"), 0 if fn.endswith("_m") else keep(T, R, st, s, "source unchanged"), T.frame(st, [s.buf])))
@task(P)
def q_assign(T): R = qc(T); s = R.make("src"); l = R.make("q"); T.post(T.call("q_assign", l.p, s.p), lambda st, r: (same(T, R, st, l.p, s.n, s.S, "assignment"), keep(T, R, st, s, "source unchanged"), T.must(st, PEq(r, l.p), "returns the queue"), T.frame(st, [s.buf, l.buf])))
@task(P)
def q_dtor(T):
    R = q(T); l = R.make("q")
    T.post(T.call("q_dtor", l.p), lambda st, r: (T.must(st.copy(), Not(T.e.fm_read(st, st.fams[l.fam].live, (FInt("id"),), None)), "destructor releases the storage"), T.frame(st, [])))
def obs(fn, f, pre=None):
    @task(P, fn)
    def t(T):
        R = q(T); l = R.make("q")
        if pre: T.assume(Lt(0, l.n))
        def post(st, r): w = f(T, R, st, l); T.must(st, PEq(r, w) if isinstance(w, Ptr) else Eq(r, w) if z3.is_int(w) else zb(r) == zb(w), fn + " result"); T.frame(st, [l.buf], [l.p.obj, l.buf])
        T.post(T.call(fn, l.p), post)
for f in ("q_front", "q_cfront"): obs(f, lambda T, R, st, l: slot(T, R, st, l, 0)[0], 1)
for f in ("q_back", "q_cback"): obs(f, lambda T, R, st, l: slot(T, R, st, l, Sub(l.n, 1))[0], 1)
obs("q_empty", lambda T, R, st, l: Eq(l.n, 0)); obs("q_size", lambda T, R, st, l: l.n)

# ---- failing allocations (C25)
NOST = " when storage cannot be obtained"
for fn, mv in (("q_push", 0), ("q_push_m", 1)):
    for own in (0, 1):
        if own and mv: continue
        @task("C25", f"{fn}[{'own element' if own else 'other element'}]" + NOST)
        def t(T, fn=fn, own=own): R = q(T); l = R.make("q"); x, v = elemarg(T, R, l, own); T.fails(fn, [l.p, x], lambda st: R.check(st, l.p, l.n, l.S, "after the failure"))
@task("C25", "q_ctor" + NOST)
def t(T): R = q(T); p = R.fresh("q"); T.fails("q_ctor", [p], lambda st: T.frame(st, []))
for fn in ("q_ctor_cont", "q_ctor_copy"):
    @task("C25", fn + NOST)
    def t(T, fn=fn): R = qc(T); s = R.make("src"); p = R.fresh("q"); T.fails(fn, [p, s.p], lambda st: (keep(T, R, st, s, "source unchanged"), T.frame(st, [s.buf])), [p])
