"""Contracts of cest::queue over cest::list."""
from spec import *
import listx
from listx import setup, elemarg, pos_split, new_nodes, same, keep, gone
HARNESS = "queuel"; P = "C13"
def q(T, contracts=False):
    R = setup(T, contracts)
    if T.cval("Q_c") or T.cval("Q_sizeof") != T.sz: raise Unsupported("queue is not just its container")
    return R
for fn, mv in (("q_push", 0), ("q_push_m", 1)):
    for own in (0, 1):
        if own and mv: continue
        @task(P, f"{fn}[list, {'own element' if own else 'other element'}]")
        def t(T, fn=fn, mv=mv, own=own):
            R = q(T); l = R.make("q"); x, v = elemarg(T, R, l, own)
            def post(st, r): new = new_nodes(T, st); T.must(st, len(new) == 1, "one node is allocated"); R.check(st, l, pos_split(l, l.n, [(1, lambda j: new[0], lambda j: v)]), "push: appended as the newest", lambda x: x)
            T.post(T.call(fn, l.p, x), post)
@task(P, "q_pop[list]")
def t(T): R = q(T); l = R.make("q"); T.assume(Lt(0, l.n)); T.post(T.call("q_pop", l.p), lambda st, r: R.check(st, l, [(Sub(l.n, 1), lambda j: l.q.at(Add(j, 1)), lambda j: l.S(Add(j, 1)))], "pop: removes the oldest", lambda x: Sub(x, 1)))
@task(P, "q_ctor[list]")
def t(T): R = q(T); p = R.fresh("q"); T.post(T.call("q_ctor", p), lambda st, r: (R.read(st, p), T.frame(st, [])))
for fn in ("q_ctor_cont", "q_ctor_cont_m", "q_ctor_copy"):
    @task(P, fn + "[list]")
    def t(T, fn=fn): R = q(T, True); s = R.make("src"); p = R.fresh("q"); T.post(T.call(fn, p, s.p), lambda st, r: (same(T, R, st, p, s, "copies the container"), 0 if fn.endswith("_m") else keep(T, R, st, s, "source unchanged"), T.frame(st, [])))
@task(P, "q_assign[list]")
def t(T): R = q(T, True); s = R.make("src"); l = R.make("q"); T.post(T.call("q_assign", l.p, s.p), lambda st, r: (same(T, R, st, l.p, s, "assignment"), keep(T, R, st, s, "source unchanged"), gone(T, R, st, l, "old contents"), T.must(st, PEq(r, l.p), "returns the queue"), T.frame(st, [])))
def obs(fn, f, pre=None):
    @task(P, fn + "[list]")
    def t(T):
        R = q(T); l = R.make("q")
        if pre: T.assume(Lt(0, l.n))
        def post(st, r): w = f(T, l); T.must(st, PEq(r, w) if isinstance(w, Ptr) else Eq(r, w) if z3.is_int(w) else zb(r) == zb(w), fn + " result"); keep(T, R, st, l, "unchanged"); T.frame(st, [], [l.p.obj])
        T.post(T.call(fn, l.p), post)
for f in ("q_front", "q_cfront"): obs(f, lambda T, l: Ptr(l.q.at(0), T.oval), 1)
for f in ("q_back", "q_cback"): obs(f, lambda T, l: Ptr(l.q.at(Sub(l.n, 1)), T.oval), 1)
obs("q_empty", lambda T, l: Eq(l.n, 0)); obs("q_size", lambda T, l: l.n)
