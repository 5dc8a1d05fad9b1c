"""Forward symbolic executor / verification-condition generator over LLVM IR."""
import re, time, os, subprocess, sys, tempfile
import z3
from terms import *
import llvmir

FAM0 = 1000000          # object ids of family (symbolic) objects lie above this; concrete ids below
U64 = 1 << 64

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(self, conds): self.conds = conds
class Dead(Exception): pass          # current path became infeasible / terminated by a failed obligation

class _Un:
    def __repr__(self): return "UNINIT"
UNINIT = _Un()

# ----------------------------------------------------------------- functional maps
class FM:
    """persistent functional map.  Keys are tuples of int terms."""
    __slots__ = ("parent", "kind", "a", "b", "depth")
    def __init__(self, parent, kind, a, b=None):
        self.parent = parent; self.kind = kind; self.a = a; self.b = b
        self.depth = 0 if parent is None else parent.depth + 1
    @staticmethod
    def base(fn=None): return FM(None, "base", fn)
    def pt(self, key, val):
        # drop an older point write to the identical constant key directly below
        n = self
        if n.kind == "pt" and all(isc(x) and isc(y) and x == y for x, y in zip(n.a, key)): n = n.parent
        return FM(n, "pt", key, val)
    def rg(self, cond, val): return FM(self, "rg", cond, val)          # val: key -> term | UNINIT
    def rgsub(self, cond, fm, keymap): return FM(self, "rs", cond, (fm, keymap))

class Obj:
    """memory object with a concrete id"""
    __slots__ = ("id", "name", "size", "live", "heap", "comps", "otypes", "dtype", "const", "esz", "tag", "nocheck")
    def __init__(s, id, name, size, heap=False):
        s.id = id; s.name = name; s.size = size; s.live = True; s.heap = heap
        s.comps = {}; s.otypes = {}; s.dtype = None; s.const = False; s.tag = None; s.nocheck = False
    def copy(s):
        o = Obj.__new__(Obj)
        o.id = s.id; o.name = s.name; o.size = s.size; o.live = s.live; o.heap = s.heap
        o.comps = dict(s.comps); o.otypes = dict(s.otypes); o.dtype = s.dtype; o.const = s.const; o.tag = s.tag; o.nocheck = s.nocheck
        return o
    def comp(s, c):
        f = s.comps.get(c)
        if f is None:
            f = FM.base((lambda key: False) if c == "alive" else None)
        return f

class Fam:
    """a family of equally-sized objects with symbolic ids"""
    __slots__ = ("name", "k", "size", "live", "comps", "dtype", "heap", "seq", "fixed")
    def __init__(s, name, k, size, live):
        s.fixed = (); s.name = name; s.k = k; s.size = size; s.live = live; s.comps = {}; s.dtype = {}; s.heap = True; s.seq = None
    def copy(s):
        o = Fam(s.name, s.k, s.size, s.live); o.comps = dict(s.comps); o.dtype = dict(s.dtype); o.heap = s.heap; o.seq = s.seq; o.fixed = s.fixed
        return o
    def comp(s, c):
        f = s.comps.get(c)
        if f is None: f = FM.base((lambda key: False) if c == "alive" else None)
        return f

class State:
    __slots__ = ("pc", "mem", "fams", "ghost", "silent", "trace", "owned_mem", "owned_fam")
    def __init__(s):
        s.pc = []; s.mem = {}; s.fams = {}; s.ghost = {}; s.silent = 0; s.trace = ()
    def copy(s):
        t = State(); t.pc = list(s.pc); t.mem = dict(s.mem); t.fams = dict(s.fams); t.ghost = dict(s.ghost)
        t.silent = s.silent; t.trace = s.trace
        return t
    def wobj(s, id):
        o = s.mem[id].copy(); s.mem[id] = o; return o
    def wfam(s, n):
        o = s.fams[n].copy(); s.fams[n] = o; return o

class Oblig:
    __slots__ = ("name", "status", "time", "backend", "model", "detail")

class Engine:
    def __init__(self, module, task="", timeout=10000):
        self.m = module; self.task = task; self.timeout = timeout
        self.solver = z3.Solver(); self.solver.set("timeout", timeout)
        self.stack = []; self.axioms = []; self.ax_levels = [0]; self.ax_done = 0
        self.obligs = []; self.nid = 1; self.contracts = []; self.externs = []
        self.fnids = {}; self.idfn = {}; self.globs = {}
        self.solver_time = 0.0; self.nchecks = 0
        self.optimistic = 0
        self.BASE = z3.Function("BASE", z3.IntSort(), z3.IntSort())
        self.FK = z3.Function("FK", z3.IntSort(), z3.IntSort())
        self.loop_hooks = []; self.assumptions = set(); self.used_contracts = set(); self.inlined = set()
        self.used_externs = set()
        self.maxdepth = 60; self.depth = 0; self.deadline = None
        self.cur = ""
        self._dcache = {}
        self.famkeys = {}
        self.loop_log = []
        self.real_fp = True
    # ------------------------------------------------------------- solver
    def _sync(self, pc):
        st = self.stack; n = 0; L = min(len(st), len(pc))
        while n < L and st[n] is pc[n]: n += 1
        if n < len(st):
            self.solver.pop(len(st) - n); del st[n:]
            del self.ax_levels[n + 1:]
            self.ax_done = self.ax_levels[-1]
        for c in pc[n:]:
            self.solver.push(); self.solver.add(zb(c)); st.append(c); self.ax_levels.append(self.ax_done)
        if self.ax_done < len(self.axioms):
            for a in self.axioms[self.ax_done:]: self.solver.add(a)
            self.ax_done = len(self.axioms); self.ax_levels[-1] = self.ax_done
    def check(self, st, *extra):
        if self.deadline and time.time() > self.deadline: raise Unsupported("time budget exhausted")
        t0 = time.time()
        if self.pool is not None:
            m = self.pooled(st.pc, extra)
            if m is not None:
                self.solver_time += time.time() - t0
                if self._want_model: self.last_model = m
                return z3.sat
        self._sync(st.pc)
        self.nchecks += 1
        if extra:
            self.solver.push()
            for e in extra: self.solver.add(zb(e))
            r = self.solver.check()
            if r == z3.sat and self._want_model:
                self.last_model = self.solver.model()
            if r == z3.sat and self.pool is not None: self.keep_model(st.pc)
            self.solver.pop()
        else:
            r = self.solver.check()
            if r == z3.sat and self.pool is not None: self.keep_model(st.pc)
        self.solver_time += time.time() - t0
        return r
    pool = None          # recent models: a query one of them satisfies is satisfiable without asking the solver
    def keep_model(self, pc):
        self.pool.insert(0, [self.solver.model(), {c.get_id(): c for c in map(zb, pc)}, len(self.axioms)]); del self.pool[12:]
    def pooled(self, pc, extra):
        tr = lambda m, c: z3.is_true(m.eval(c, model_completion=True)); pc = [zb(c) for c in pc]
        for ent in list(self.pool):
            m, ok, n = ent
            if not all(c.get_id() in ok for c in pc):
                good = True
                for c in reversed(pc):
                    if c.get_id() in ok: continue
                    if not tr(m, c): good = False; break
                    ok[c.get_id()] = c
                if not good: continue
            if not all(tr(m, zb(c)) for c in extra): continue
            while n < len(self.axioms):
                if not tr(m, self.axioms[n]): break
                n += 1
            ent[2] = n
            if n < len(self.axioms): self.pool.remove(ent); continue
            self.pool.remove(ent); self.pool.insert(0, ent); return m
        return None
    _want_model = False; pend = None; quant = False; nretry = 0
    def quantified(self):
        """quantified axioms with triggers are in use: pattern-based instantiation only"""
        if not self.quant:
            self.quant = True; self.solver.set("auto_config", False); self.solver.set("smt.mbqi", False)
    def decide(self, st, c):
        """True/False if c is entailed/refuted on the path, else None"""
        if isinstance(c, bool): return c
        c = S(c)
        if isinstance(c, bool): return c
        key = (c.get_id(), len(st.pc), id(st.pc[-1]) if st.pc else 0, len(self.axioms))
        # cache valid only while the ast is alive: keep c
        h = self._dcache.get(key)
        if h is not None and h[1] is not None and len(h[2]) == len(st.pc) and all(x is y for x, y in zip(h[2], st.pc)):
            return h[0]
        if self.check(st, z3.Not(c)) == z3.unsat: r = True
        elif self.check(st, c) == z3.unsat: r = False
        else: r = None
        self._dcache[key] = (r, c, list(st.pc))
        return r
    def entailed(self, st, c):
        if isinstance(c, bool): return c
        c = S(c)
        if isinstance(c, bool): return c
        return self.check(st, z3.Not(c)) == z3.unsat
    def feasible(self, st, c=True):
        if c is False: return False
        return self.check(st, *([] if c is True else [c])) != z3.unsat
    def assume(self, st, c):
        if c is True: return
        if c is False: raise Dead()
        c = S(c)
        if c is True: return
        if c is False: raise Dead()
        st.pc.append(c)
    def axiom(self, a):
        if a is True: return
        self.axioms.append(zb(a))
    # ------------------------------------------------------------- obligations
    def oblige(self, st, c, name):
        """the verifier must prove c on this path; a failure is recorded, then c is assumed"""
        if st.silent:
            if c is False: raise Dead()
            if c is not True:
                self.assume(st, c)
                if not self.feasible(st): raise Dead()
            return True
        if self.pend is not None: self.pend.append((c, name)); return True
        full = f"{self.task}: {name}"
        if st.ghost.get("hist") and not isinstance(c, bool): self.inst_hist(st, c)
        o = Oblig(); o.name = full; o.model = None; o.detail = None; o.backend = "z3"
        t0 = time.time()
        c = S(c) if not isinstance(c, bool) else c
        if c is True:
            o.status = "ok"; o.time = 0.0; o.backend = "simplifier"; self.obligs.append(o); return True
        nc = True if c is False else z3.Not(c)
        self._want_model = True; self.last_model = None
        r = self.check(st, nc) if nc is not True else self.check(st)
        self._want_model = False
        if nc is True and r == z3.sat:
            self.last_model = None
        if r == z3.unknown:
            r, be = self.retry(st, nc); o.backend = be
        o.time = time.time() - t0
        if r == z3.unsat: o.status = "ok"
        elif r == z3.sat:
            o.status = "fail"; o.model = str(self.last_model)[:4000] if self.last_model is not None else None
        else: o.status = "unknown"
        if o.status != "ok":
            o.detail = "path: " + " -> ".join(st.trace[-12:]) + "\n  goal: " + str(c)[:1500]
        self.obligs.append(o)
        if c is False: raise Dead()
        if o.status != "ok":
            st.pc.append(c)
            if not self.feasible(st): raise Dead()
        return o.status == "ok"
    def inst_hist(self, st, goal):
        """instantiate 'every earlier iteration' facts at terms matching the goal"""
        done = set(st.ghost.get("hist_done", ()))
        new = []
        apps = {}
        for t in [goal] + [x for x in st.pc[-6:] if isinstance(x, z3.ExprRef)]:
            for ap in uf_apps(t): apps.setdefault(ap.decl().name(), set()).add(ap)
        for k, h in st.ghost.get("hist", ()):
            if isinstance(h, bool): continue
            cand = {}
            for ap in uf_apps(h):
                for i in range(ap.num_args()):
                    a = ap.arg(i)
                    if not z3.is_int(a): continue
                    d = Sub(subst(a, [(k, k + 1)]), a)
                    if isc(d) and d in (1, -1):
                        for g in apps.get(ap.decl().name(), ()):
                            if i < g.num_args():
                                a0 = subst(a, [(k, z3.IntVal(0))])
                                j = S(zi(g.arg(i)) - zi(a0)) if d == 1 else S(zi(a0) - zi(g.arg(i)))
                                cand[str(j)] = j
            for sj, j in cand.items():
                key = (str(k), sj)
                if key in done: continue
                done.add(key); new.append(Or(Not(And(Le(0, j), Lt(j, k))), subst(h, [(k, j)])))
        if new:
            st.ghost["hist_done"] = tuple(done)
            for x in new:
                if x is not True: st.pc.append(x)
    def retry(self, st, nc):
        s = z3.Solver(); s.set("timeout", self.timeout * 2)
        if self.quant:
            s.set("auto_config", False); s.set("smt.mbqi", False); self.nretry += 1
            if self.nretry > 4: return z3.unknown, "z3"
        for c in st.pc: s.add(zb(c))
        for a in self.axioms: s.add(a)
        if nc is not True: s.add(nc)
        t0 = time.time(); r = s.check(); self.solver_time += time.time() - t0
        if r == z3.sat: self.last_model = s.model()
        if r != z3.unknown: return r, "z3"
        try:
            txt = "(set-logic ALL)\n" + s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(txt)
            p = subprocess.run(["cvc5", "--tlimit=%d" % (4000 if self.quant else 15000), f.name], capture_output=True, text=True, timeout=20)
            os.unlink(f.name)
            w = p.stdout.strip().split("\n")[0]
            if w == "unsat": return z3.unsat, "cvc5"
            if w == "sat": return z3.sat, "cvc5"
        except Exception: pass
        return z3.unknown, "z3+cvc5"
    # ------------------------------------------------------------- objects
    def new_obj(self, st, name, size, heap=False):
        id = self.nid; self.nid += 1
        o = Obj(id, name, size, heap); st.mem[id] = o
        return o
    def fn_ptr(self, fn):
        if fn.name not in self.fnids:
            id = 500000 + len(self.fnids); self.fnids[fn.name] = id; self.idfn[id] = fn
        return Ptr(self.fnids[fn.name], 0)
    def global_ptr(self, st, name):
        if name in self.m.functions: return self.fn_ptr(self.m.functions[name])
        if name in self.m.aliases: return self.global_ptr(st, self.m.aliases[name])
        if name not in self.globs:
            id = 600000 + len(self.globs)
            ty, init, const = self.m.global_init(name)
            self.globs[name] = (id, ty, init, const)
        id, ty, init, const = self.globs[name]
        if id not in st.mem:
            o = Obj(id, "@" + name, ty.size if ty.size else 0); o.const = const; st.mem[id] = o
            if init is None: o.nocheck = True
            else: self.fill_global(st, o, 0, ty, init)
        return Ptr(id, 0)
    def fill_global(self, st, o, off, ty, v):
        k = ty.kind
        if k == "struct":
            if v is None or v.kind in ("zero", "undef"):
                for t, f in zip(ty.elems, ty.offs): self.fill_global(st, o, off + f, t, None if v is None or v.kind == "zero" else v)
            else:
                for t, f, x in zip(ty.elems, ty.offs, v.ops): self.fill_global(st, o, off + f, t, x)
            return
        if k == "array":
            et = ty.elems[0]
            if v is not None and v.kind in ("carray", "cdataarray") and et.kind == "int" and et.w == 8:
                tab = [x.v for x in v.ops]
                n = ty.n
                def fn(key, off=off, tab=tab):
                    r = 0; x = key[0]
                    if isc(x): return tab[x - off] if 0 <= x - off < len(tab) else 0
                    for i, b in enumerate(tab): r = If(Eq(x, off + i), b, r)
                    return r
                o.comps["i8"] = FM.base(fn); o.dtype = "i8"; return
            if ty.n > 4096: raise Unsupported("large global array")
            for i in range(ty.n):
                self.fill_global(st, o, off + i * et.size, et, v.ops[i] if v is not None and v.ops else None if v is None or v.kind == "zero" else v)
            return
        if v is None or v.kind == "zero":
            val = NULL if k == "ptr" else 0 if k == "int" else z3.RealVal(0)
        elif v.kind in ("undef", "poison"): return
        else: val = self.const(st, v)
        self.raw_store(o, k if k != "int" else "int", ty, off, val)
    def comp_of(self, ty):
        if ty.kind == "int":
            return {1: "i8", 8: "i8", 16: "i16", 32: "i32", 64: "i64"}.get(ty.w) or self._bad("int width %d" % ty.w)
        if ty.kind == "ptr": return "p"
        if ty.kind in ("double", "float", "x86_fp80"): return "f" + str(ty.size)
        raise Unsupported("memory type " + ty.name)
    def _bad(self, s): raise Unsupported(s)
    def raw_store(self, o, k, ty, off, val):
        c = self.comp_of(ty); o.otypes[off] = c
        if c == "p":
            o.comps["po"] = o.comp("po").pt((off,), val.obj); o.comps["pp"] = o.comp("pp").pt((off,), val.off)
        else: o.comps[c] = o.comp(c).pt((off,), val)
    # ------------------------------------------------------------- map reads
    def fm_pieces(self, st, fm, key, stop=None):
        """list of (cond, val|UNINIT|('BASE',)) in priority order, last cond True"""
        res = []; node = fm
        while True:
            if stop is not None and node is stop:
                res.append((True, ("BASE",))); return res
            if node.kind == "base":
                v = UNINIT if node.a is None else node.a(key)
                if isinstance(v, tuple) and v and v[0] == "INIT":      # (INIT, cond, val): initialised only where cond
                    res.append((v[1], v[2])); res.append((True, UNINIT))
                else: res.append((True, v))
                return res
            if node.kind == "pt":
                c = And(*[Eq(x, y) for x, y in zip(node.a, key)])
            else: c = node.a(key)
            d = self.decide(st, c)
            if d is False: node = node.parent; continue
            if node.kind == "pt": v = [(True, node.b)]
            elif node.kind == "rg": v = [(True, node.b(key))]
            else:
                fm2, km = node.b
                st2 = st
                if d is None:
                    st2 = st.copy(); st2.pc.append(c)
                v = self.fm_pieces(st2, fm2, km(key))
            for c2, x in v: res.append((And(c, c2) if d is None else c2, x))
            if d is True:
                return res
            node = node.parent
    def fm_read(self, st, fm, key, why, base=None, stop=None):
        ps = self.fm_pieces(st, fm, key, stop)
        neg = True; out = []
        for c, v in ps:
            if v is UNINIT:
                bad = And(neg, c)
                if why is None: out.append((c, "UN"));
                else: self.oblige(st, Not(bad), f"{why}: memory read is initialised")
            else:
                if isinstance(v, tuple) and v and v[0] == "BASE": v = base
                out.append((c, v))
            if c is True: break
            neg = And(neg, Not(c))
        if why is None and any(isinstance(v, str) for _, v in out):
            return UNINIT if all(isinstance(v, str) for _, v in out) else self._mix(out)
        if not out: raise Dead()
        r = out[-1][1]
        for c, v in reversed(out[:-1]): r = If(c, v, r)
        return S(r)
    def _mix(self, out):
        # partially uninitialised, tolerated (ghost comparison): use a fixed marker for the uninitialised part
        vals = [v for _, v in out if not isinstance(v, str)]
        mk = False if (vals and (isinstance(vals[0], bool) or z3.is_bool(vals[0]))) else (z3.RealVal(0) if vals and z3.is_real(vals[0]) else -77777)
        r = None
        for c, v in reversed(out):
            v = mk if isinstance(v, str) else v
            r = v if r is None else If(c, v, r)
        return S(r)
    # ------------------------------------------------------------- pointer resolution
    def resolve(self, st, p, size, why, write=False, check=True):
        """-> ('o', Obj, off) or ('f', Fam, id, off).  Forks when several targets are possible."""
        obj = S(p.obj) if not isc(p.obj) else p.obj
        if isc(obj):
            if obj == 0:
                self.oblige(st, False, f"{why}: pointer is not null"); raise Dead()
            o = st.mem.get(obj)
            if o is None:
                if obj in self.idfn: raise Unsupported("memory access to function")
                raise Unsupported(f"unknown object {obj}")
            if o.tag is not None and o.tag[0] == "folded":
                o.tag[1].unfold(st, obj); o = st.mem[obj]
            if check and not o.nocheck:
                if not o.live:
                    self.oblige(st, False, f"{why}: object {o.name} has not been freed"); raise Dead()
                self.oblige(st, And(Le(0, p.off), Le(Add(p.off, size), o.size)), f"{why}: access within bounds of {o.name}")
            if write and o.const: self.oblige(st, False, f"{why}: object {o.name} is writable")
            return ("o", o, p.off)
        # symbolic: which targets are feasible?
        cands = []
        consts = set()
        for id in (st.mem if self.feasible(st, Le(obj, FAM0)) else ()):
            if self.feasible(st, Eq(obj, id)): consts.add(id)
        for id in sorted(consts): cands.append((Eq(obj, id), ("o", id)))
        if self.feasible(st, Eq(obj, 0)): cands.append((Eq(obj, 0), ("null",)))
        fs = []
        for n, f in st.fams.items():
            c = And(Lt(FAM0, obj), Eq(self.FK(zi(obj)), f.k))
            if self.feasible(st, c): cands.append((c, ("f", n))); fs.append(c)
        other = And(*[Not(c) for c, _ in cands])
        if other is not False and self.feasible(st, other):
            self.oblige(st, Not(other), f"{why}: pointer refers to a known object")
        if not cands: raise Dead()
        if len(cands) > 1: raise Fork([c for c, _ in cands])
        c, t = cands[0]
        if t[0] == "null":
            self.oblige(st, False, f"{why}: pointer is not null"); raise Dead()
        if t[0] == "o":
            return self.resolve(st, Ptr(t[1], p.off), size, why, write, check)
        f = st.fams[t[1]]
        if f.fixed and not isc(p.off):
            for c in f.fixed:
                if self.entailed(st, Eq(p.off, c)): p = Ptr(p.obj, c); break
        if check:
            lv = self.fm_read(st, f.live, (obj,), None)
            self.oblige(st, lv, f"{why}: {f.name} is live (not freed)")
            self.oblige(st, And(Le(0, p.off), Le(Add(p.off, size), f.size)), f"{why}: access within bounds of {f.name}")
        return ("f", f, obj, p.off)
    def comp_check(self, st, tgt, off, c, why, write):
        o = tgt
        if isc(off):
            if isinstance(o, Obj):
                if write: return
                t = o.otypes.get(off) or o.dtype
            else: t = o.dtype.get(off) if isinstance(o.dtype, dict) else None
            if t is not None and t != c: raise Unsupported(f"{why}: type-punned access {t} as {c}")
        elif isinstance(o, Obj):
            if o.dtype is None:
                if write: pass
            elif o.dtype != c: raise Unsupported(f"{why}: type-punned access {o.dtype} as {c}")
    def load(self, st, p, ty, why):
        if ty.kind == "struct":
            return tuple(self.load(st, Ptr(p.obj, Add(p.off, f)), t, why) for t, f in zip(ty.elems, ty.offs))
        c = self.comp_of(ty)
        r = self.resolve(st, p, ty.size, why)
        if r[0] == "o":
            o = r[1]; key = (r[2],)
            if o.nocheck and c != "p" and not (isc(r[2]) and o.otypes.get(r[2])): return self.fresh_of(st, ty)
            if o.nocheck and c == "p": raise Unsupported("load of pointer from external global " + o.name)
            self.comp_check(st, o, r[2], c, why, False)
        else:
            o = r[1]; key = (r[2], r[3]); self.comp_check(st, o, r[3], c, why, False)
        if c == "p":
            a = self.fm_read(st, o.comp("po"), key, why)
            b = self.fm_read(st, o.comp("pp"), key, None)
            if b is UNINIT: b = 0
            return Ptr(a, b)
        v = self.fm_read(st, o.comp(c), key, why)
        if ty.kind == "int" and ty.w == 1: return Ne(v, 0)
        return v
    def store(self, st, p, ty, val, why):
        if ty.kind == "struct":
            for t, f, v in zip(ty.elems, ty.offs, val): self.store(st, Ptr(p.obj, Add(p.off, f)), t, v, why)
            return
        c = self.comp_of(ty)
        r = self.resolve(st, p, ty.size, why, True)
        if ty.kind == "int" and ty.w == 1: val = If(val, 1, 0)
        if r[0] == "o":
            if r[1].nocheck: raise Unsupported("store to external global")
            o = st.wobj(r[1].id); key = (r[2],)
            self.comp_check(st, o, r[2], c, why, True)
            if isc(r[2]):
                self.retype(o, r[2], ty.size, c)
            else:
                if o.dtype is None and not o.otypes: o.dtype = c
                elif o.dtype is None:
                    if set(o.otypes.values()) <= {c}: o.dtype = c
                    else: raise Unsupported(f"{why}: symbolic store into structured object")
                elif o.dtype != c: raise Unsupported(f"{why}: type-punned store")
        else:
            o = st.wfam(r[1].name); key = (r[2], r[3])
            if isc(r[3]):
                t = o.dtype.get(r[3])
                if t is not None and t != c: raise Unsupported(f"{why}: type-punned family store")
                o.dtype[r[3]] = c
        if c == "p":
            if not isinstance(val, Ptr): raise Unsupported("store non-pointer as pointer")
            o.comps["po"] = o.comp("po").pt(key, val.obj); o.comps["pp"] = o.comp("pp").pt(key, val.off)
        else: o.comps[c] = o.comp(c).pt(key, val)
    SZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "p": 8, "f8": 8, "f4": 4, "f16": 16}
    def retype(self, o, off, size, c):
        if o.dtype is not None:
            if o.dtype != c: raise Unsupported(f"type-punned store into {o.name}")
            return
        for f, t in list(o.otypes.items()):
            if f < off + size and off < f + self.SZ[t] and not (f == off and t == c):
                if f == off and self.SZ[t] == size:
                    del o.otypes[f]
                    continue
                raise Unsupported(f"overlapping typed store in {o.name}")
        o.otypes[off] = c
    def fresh_of(self, st, ty):
        if ty.kind == "int":
            if ty.w == 1: return FBool("nd")
            x = FInt("nd"); self.assume(st, InRange(0, x, 1 << ty.w)); return x
        if ty.kind in ("double", "float", "x86_fp80"): return FReal("nd")
        if ty.kind == "struct": return tuple(self.fresh_of(st, t) for t in ty.elems)
        raise Unsupported("fresh " + ty.name)
    # ghost access for opaque elements
    def ghost_loc(self, st, p, size, why, write=False):
        r = self.resolve(st, p, size, why, write)
        if r[0] == "o": return r[1], (r[2],), r[1].id, True
        return r[1], (r[2], r[3]), r[1].name, False
    def gread(self, st, tgt, key, comp, why=None): return self.fm_read(st, tgt.comp(comp), key, why)
    def gwrite(self, st, tid, isobj, key, comp, val):
        o = st.wobj(tid) if isobj else st.wfam(tid)
        o.comps[comp] = o.comp(comp).pt(key, val)
    # ------------------------------------------------------------- constants & operands
    def const(self, st, v):
        k = v.kind
        if k == "cint":
            if v.ty.w == 1: return bool(v.v)
            return v.v if v.v is not None else self._bad("wide int")
        if k == "null": return NULL
        if k == "cfp":
            if v.v != v.v or v.v in (float("inf"), float("-inf")): return self.fp_special(v.v)
            from fractions import Fraction
            fr = Fraction(v.v); return z3.RealVal(f"{fr.numerator}/{fr.denominator}")
        if k in ("func", "gvar", "alias"): return self.global_ptr(st, v.name)
        if k in ("undef", "poison"):
            return self.undef(st, v.ty)
        if k == "zero":
            return self.zero(v.ty)
        if k == "cstruct": return tuple(self.const(st, x) for x in v.ops)
        if k == "cexpr":
            if v.v == "getelementptr":
                return self.gep(st, self.const(st, v.ops[0]), v.name, [self.const(st, x) for x in v.ops[1:]], [x.ty for x in v.ops[1:]])
            if v.v in ("bitcast", "addrspacecast"): return self.const(st, v.ops[0])
            if v.v == "inttoptr": return Ptr(0, self.const(st, v.ops[0]))
        raise Unsupported(f"constant {k} {v.v}")
    def fp_special(self, x):
        n = "nan" if x != x else ("inf" if x > 0 else "ninf")
        return z3.Real("fp_" + n)
    def zero(self, ty):
        if ty.kind == "int": return False if ty.w == 1 else 0
        if ty.kind == "ptr": return NULL
        if ty.kind in ("double", "float", "x86_fp80"): return z3.RealVal(0)
        if ty.kind == "struct": return tuple(self.zero(t) for t in ty.elems)
        if ty.kind == "array": return tuple(self.zero(ty.elems[0]) for _ in range(ty.n))
        raise Unsupported("zero " + ty.name)
    def undef(self, st, ty):
        if ty.kind == "int": return FBool("un") if ty.w == 1 else self._rng(st, FInt("un"), ty.w)
        if ty.kind == "ptr": return Ptr(FInt("unp"), 0)
        if ty.kind in ("double", "float", "x86_fp80"): return FReal("un")
        if ty.kind == "struct": return tuple(self.undef(st, t) for t in ty.elems)
        raise Unsupported("undef " + ty.name)
    def _rng(self, st, x, w):
        self.assume(st, InRange(0, x, 1 << w)); return x
    def op(self, st, env, v):
        if v.kind == "inst": return env[v.id]
        if v.kind == "arg": return env[v.name]
        return self.const(st, v)
    # ------------------------------------------------------------- arithmetic
    def sgn(self, st, x, w):
        """signed value of canonical unsigned x"""
        if isc(x): return x - (1 << w) if x >= 1 << (w - 1) else x
        h = 1 << (w - 1)
        d = self.decide(st, Lt(x, h))
        if d is True: return x
        if d is False: return Sub(x, 1 << w)
        if self.optimistic: return x          # probe only: the verifying run decides it from the invariants
        return S(z3.If(zi(x) < h, x, x - (1 << w)))
    def canon(self, st, e, w, lo=None, hi=None):
        """canonical unsigned representative of mathematical int e known to be near range"""
        M = 1 << w
        if isc(e): return e % M
        e = S(e)
        if isc(e): return e % M
        if self.optimistic: return e
        if self.entailed(st, And(Le(0, e), Lt(e, M))): return e
        if self.entailed(st, And(Le(0, e), Lt(e, 2 * M))): return S(z3.If(e >= M, e - M, e))
        if self.entailed(st, And(Le(-M, e), Lt(e, M))): return S(z3.If(e < 0, e + M, e))
        return S(e % M)
    def binop(self, st, I, a, b):
        w = I.ty.w; o = I.op
        if w == 1:
            if o == "and": return And(a, b)
            if o == "or": return Or(a, b)
            if o in ("xor", "add", "sub"):
                if isinstance(a, bool): a, b = b, a
                if isinstance(b, bool): return Not(a) if b else a
                return S(z3.Xor(a, b))
            raise Unsupported("i1 " + o)
        M = 1 << w
        if o in ("add", "sub"):
            if o == "add" and isc(b) and b >= M // 2: e = Sub(a, M - b)
            elif o == "add" and isc(a) and a >= M // 2: e = Sub(b, M - a)
            elif o == "sub" and isc(b) and b >= M // 2: e = Add(a, M - b)
            else: e = Add(a, b) if o == "add" else Sub(a, b)
            if I.nsw and not self.optimistic:
                sa, sb = self.sgn(st, a, w), self.sgn(st, b, w)
                es = Add(sa, sb) if o == "add" else Sub(sa, sb)
                self.oblige(st, And(Le(-(M // 2), es), Lt(es, M // 2)), self.loc(I) + "no signed overflow")
                return self.canon(st, es, w)
            if I.nuw and not self.optimistic:
                self.oblige(st, And(Le(0, e), Lt(e, M)), self.loc(I) + "no unsigned overflow")
            return self.canon(st, e, w)
        if o == "mul":
            if I.nsw and not self.optimistic:
                es = Mul(self.sgn(st, a, w), self.sgn(st, b, w))
                self.oblige(st, And(Le(-(M // 2), es), Lt(es, M // 2)), self.loc(I) + "no signed overflow")
                return self.canon(st, es, w)
            if isc(b) and b >= M // 2 : b = b - M
            if isc(a) and a >= M // 2 : a = a - M
            return self.canon(st, Mul(a, b), w)
        if o == "shl":
            if not isc(b): raise Unsupported("shl by variable")
            if I.nsw and not self.optimistic:
                es = Mul(self.sgn(st, a, w), 1 << b)
                self.oblige(st, And(Le(-(M // 2), es), Lt(es, M // 2)), self.loc(I) + "no signed overflow")
                return self.canon(st, es, w)
            return self.canon(st, Mul(a, 1 << b), w)
        if o == "lshr":
            if isc(b): return Div(a, 1 << b)
        if o in ("udiv", "urem"):
            self.oblige(st, Ne(b, 0), self.loc(I) + "divisor is not zero")
            return Div(a, b) if o == "udiv" else Mod(a, b)
        if o in ("sdiv", "srem", "ashr"):
            sa = self.sgn(st, a, w)
            if o == "ashr":
                if not isc(b): raise Unsupported("ashr by variable")
                return self.canon(st, Div(sa, 1 << b), w)
            sb = self.sgn(st, b, w)
            self.oblige(st, Ne(b, 0), self.loc(I) + "divisor is not zero")
            self.oblige(st, Not(And(Eq(sa, -(M // 2)), Eq(sb, -1))), self.loc(I) + "no signed overflow in division")
            if not isc(sb): raise Unsupported("division by variable")
            if isc(sa):
                q = abs(sa) // abs(sb); q = q if (sa < 0) == (sb < 0) else -q
            else:
                # truncating division by a constant
                m = abs(sb)
                d = self.decide(st, Le(0, sa))
                if I.exact: q = Div(sa, m)
                elif d is True: q = Div(sa, m)
                else: q = S(z3.If(sa >= 0, sa / m, -((-sa) / m)))
                if sb < 0: q = Sub(0, q)
            if o == "sdiv": return self.canon(st, q, w)
            return self.canon(st, Sub(sa, Mul(q, sb)), w)
        if o in ("and", "or", "xor"):
            if isc(a) and isc(b): return {"and": a & b, "or": a | b, "xor": a ^ b}[o]
            return self.bitop(st, o, a, b, w)
        raise Unsupported("binop " + o)
    def bitop(self, st, o, a, b, w):
        if isc(a): a, b = b, a
        M = 1 << w
        if isc(b):
            if o == "and":
                if b == 0: return 0
                if b == M - 1: return a
                if b & (b + 1) == 0: return Mod(a, b + 1)
            if o in ("or", "xor") and b == 0: return a
            if o == "xor" and b == M - 1: return Sub(M - 1, a)
            # single/multi bit constants: decompose into bits
            bits = [i for i in range(w) if b >> i & 1]
            nb = [i for i in range(w) if not b >> i & 1]
            def bit(i): return Mod(Div(a, 1 << i), 2)
            if o == "and":
                if len(bits) <= 8:
                    r = 0
                    for i in bits: r = Add(r, Mul(bit(i), 1 << i))
                    return r
                if len(nb) <= 8:
                    r = a
                    for i in nb: r = Sub(r, Mul(bit(i), 1 << i))
                    return r
            if o == "or" and len(bits) <= 8:
                r = Add(a, b)
                for i in bits: r = Sub(r, Mul(bit(i), 1 << i))
                return r
            if o == "xor" and len(bits) <= 8:
                r = Add(a, b)
                for i in bits: r = Sub(r, Mul(bit(i), 2 << i))
                return r
        # small operands known to lie below 2^6: bitwise by decomposition
        for k in (1, 2, 3, 4, 5, 6, 8):
            if self.entailed(st, And(Lt(a, 1 << k), Lt(b, 1 << k))):
                r = 0
                for i in range(k):
                    x = Mod(Div(a, 1 << i), 2); y = Mod(Div(b, 1 << i), 2)
                    one = {"and": And(Eq(x, 1), Eq(y, 1)), "or": Or(Eq(x, 1), Eq(y, 1)), "xor": Ne(x, y)}[o]
                    r = Add(r, If(one, 1 << i, 0))
                return r
        A = z3.Int2BV(zi(a), w); B = z3.Int2BV(zi(b), w)
        return S(z3.BV2Int({"and": A & B, "or": A | B, "xor": A ^ B}[o]))
    def addr(self, p):
        if isc(p.obj) and p.obj == 0: return p.off
        return Add(self.BASE(zi(p.obj)), p.off)
    def icmp(self, st, I, a, b):
        pr = I.pred
        if isinstance(a, Ptr):
            if pr == "eq": return PEq(a, b)
            if pr == "ne": return Not(PEq(a, b))
            if self.decide(st, Eq(a.obj, b.obj)) is True: x, y = a.off, b.off
            else: x, y = self.addr(a), self.addr(b)
            return {"ult": Lt(x, y), "ule": Le(x, y), "ugt": Lt(y, x), "uge": Le(y, x)}.get(pr, None)
        if pr == "eq":
            if isinstance(a, bool) or z3.is_bool(a): return S(zb(a) == zb(b))
            return Eq(a, b)
        if pr == "ne":
            if isinstance(a, bool) or z3.is_bool(a): return S(zb(a) != zb(b))
            return Ne(a, b)
        if isinstance(a, bool) or z3.is_bool(a):
            a = If(a, 1, 0); b = If(b, 1, 0)
        if pr[0] == "s":
            w = I.ops[0].ty.w; a = self.sgn(st, a, w); b = self.sgn(st, b, w)
        return {"lt": Lt(a, b), "le": Le(a, b), "gt": Lt(b, a), "ge": Le(b, a)}[pr[1:]]
    def gep(self, st, p, sty, idx, tys):
        if not isinstance(p, Ptr): raise Unsupported("gep on non-pointer")
        off = p.off
        def sx(i, t): return self.sgn(st, i, t.w)
        off = Add(off, Mul(sx(idx[0], tys[0]), sty.size))
        t = sty
        for i, it in zip(idx[1:], tys[1:]):
            if t.kind == "struct":
                off = Add(off, t.offs[i]); t = t.elems[i]
            elif t.kind in ("array", "vector"):
                off = Add(off, Mul(sx(i, it), t.elems[0].size)); t = t.elems[0]
            else: raise Unsupported("gep")
        return Ptr(p.obj, off)
    def loc(self, I):
        l = I.line
        s = f"{os.path.basename(l[0])}:{l[1]}" if l else "?"
        return f"[{self.cur}] {s} {I.op}: "
    # ------------------------------------------------------------- loops (structure)
    def loops(self, fn):
        if fn.loops is not None: return fn.loops
        self.m.body(fn)
        n = len(fn.blocks)
        order = []; seen = set()
        def dfs(b):
            stack = [(b, iter(self.succs(b)))]; seen.add(b.idx)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s.idx not in seen:
                        seen.add(s.idx); stack.append((s, iter(self.succs(s)))); break
                else:
                    order.append(x); stack.pop()
        dfs(fn.blocks[0])
        rpo = order[::-1]; num = {b.idx: i for i, b in enumerate(rpo)}
        dom = {b.idx: None for b in rpo}
        dom[rpo[0].idx] = {rpo[0].idx}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p.idx] for p in b.preds if p.idx in num and dom[p.idx] is not None]
                if not ps: continue
                d = set.intersection(*ps) | {b.idx}
                if d != dom[b.idx]: dom[b.idx] = d; ch = True
        L = {}
        for b in rpo:
            for s in self.succs(b):
                if s.idx in dom[b.idx]:
                    body = L.setdefault(s.idx, {s.idx})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x.idx in body: continue
                        body.add(x.idx); st.extend(p for p in x.preds if p.idx in num)
        fn.loops = L
        return L
    def succs(self, b):
        t = b.insts[-1]
        return t.succ or []
    # ------------------------------------------------------------- function execution
    def call_fn(self, st, fn, args):
        """inline execution; returns list of ('ret', st, val) / ('throw', st, what)"""
        if fn.decl: raise Unsupported("call of undefined function " + fn.dem)
        self.m.body(fn)
        if self.depth > self.maxdepth: raise Unsupported("call depth (recursion without contract): " + fn.dem)
        self.inlined.add(fn.dem)
        env = {}
        for p, a in zip(fn.params, args): env[p.name] = a
        env["#allocas"] = ()
        oc = self.cur; self.cur = short(fn.dem); self.depth += 1
        try:
            outs = self.run(fn, st, env, fn.blocks[0], None, None, None)
        finally:
            self.cur = oc; self.depth -= 1
        return outs
    def run(self, fn, st, env, block, prev, region, header, start=0):
        """execute from block until return / region exit / back edge to header"""
        work = [(st, env, block, prev, start)]; outs = []
        loops = self.loops(fn)
        while work:
            st, env, b, prev, i0 = work.pop()
            if prev is not None and i0 == 0:
                if region is not None and b.idx not in region:
                    outs.append(("exit", st, env, prev, b)); continue
                if header is not None and b is header:
                    outs.append(("back", st, env, prev)); continue
            if i0 == 0 and b.idx in loops and not (header is b):
                try:
                    for o in self.do_loop(fn, st, env, b, prev, loops[b.idx]):
                        if o[0] == "exit": work.append((o[1], o[2], o[4], o[3], 0))
                        else: outs.append(o)
                except Dead: pass
                continue
            try:
                # phis
                if i0 == 0:
                    if prev is not None:
                        vals = {}
                        for I in b.insts:
                            if I.op != "phi": break
                            for (pb, v) in I.inc:
                                if pb is prev: vals[I.id] = self.op(st, env, v); break
                        env.update(vals)
                    ln = next((x.line for x in b.insts if x.line), 0)
                    if ln: st.trace = st.trace + (f"{os.path.basename(ln[0])}:{ln[1]}",)
                i = max(i0, 0)
                while True:
                    I = b.insts[i]
                    if I.op == "phi": i += 1; continue
                    if I.op in ("br", "switch", "ret", "unreachable", "resume"):
                        r = self.terminator(fn, st, env, b, I)
                        if r is not None:
                            if r[0] == "outs": outs.extend(r[1])
                            else: work.extend(r[1])
                        break
                    if I.op in ("call", "invoke"):
                        snap = st.copy()
                        try:
                            rs = self.do_call(st, env, I)
                        except Fork as f:
                            for c in f.conds:
                                s2 = snap.copy()
                                try: self.assume(s2, c)
                                except Dead: continue
                                if self.feasible(s2): work.append((s2, dict(env), b, prev, i or -1))
                            break
                        for r in rs[1:]:
                            if r[0] == "ret":
                                e2 = dict(env); e2[I.id] = r[2]
                                if I.op == "invoke": work.append((r[1], e2, I.normal, b, 0))
                                else: work.append((r[1], e2, b, prev, i + 1))
                            else: self.thrown(r, I, env, b, work, outs)
                        if not rs: break
                        r = rs[0]
                        if r[0] != "ret": self.thrown(r, I, env, b, work, outs); break
                        st = r[1]; env[I.id] = r[2]
                        if I.op == "invoke":
                            work.append((st, env, I.normal, b, 0)); break
                        i += 1; continue
                    try:
                        v = self.inst(st, env, I)
                    except Fork as f:
                        for c in f.conds:
                            s2 = st.copy()
                            try: self.assume(s2, c)
                            except Dead: continue
                            if self.feasible(s2): work.append((s2, dict(env), b, prev, i or -1))
                        break
                    env[I.id] = v
                    i += 1
            except Dead:
                continue
        return outs
    may_fail = False      # model failing allocations: operator new may throw, and exceptions unwind through landing pads
    def thrown(self, r, I, env, b, work, outs):
        if not self.may_fail or r[0] != "throw": outs.append(r); return
        st = r[1]
        if I.op == "invoke":
            st.ghost["exc"] = r[2]; work.append((st, dict(env), I.unwind, b, 0)); return
        self.leave(st, env); outs.append(r)
    def leave(self, st, env):
        for a in env["#allocas"]:
            if a in st.mem:
                o = st.wobj(a); self.check_dead_local(st, o); o.live = False
    def terminator(self, fn, st, env, b, I):
        if I.op == "resume":
            self.leave(st, env); return ("outs", [("throw", st, st.ghost["exc"])])
        if I.op == "ret":
            v = self.op(st, env, I.ops[0]) if I.ops else None
            self.leave(st, env)
            return ("outs", [("ret", st, v)])
        if I.op == "unreachable":
            self.oblige(st, False, self.loc(I) + "unreachable code is not reached"); raise Dead()
        if I.op == "br":
            if len(I.succ) == 1: return ("w", [(st, env, I.succ[0], b, 0)])
            # operands: cond, falsebb, truebb ; succ order: true,false
            c = self.op(st, env, I.ops[0])
            d = self.decide(st, c)
            if d is True: return ("w", [(st, env, I.succ[0], b, 0)])
            if d is False: return ("w", [(st, env, I.succ[1], b, 0)])
            s2 = st.copy(); e2 = dict(env)
            self.assume(st, c); self.assume(s2, Not(c))
            return ("w", [(s2, e2, I.succ[1], b, 0), (st, env, I.succ[0], b, 0)])
        if I.op == "switch":
            v = self.op(st, env, I.ops[0]); res = []; neg = []
            cases = [(self.op(st, env, I.ops[j]), I.ops[j + 1]) for j in range(2, len(I.ops), 2)]
            for cv, bb in cases:
                c = Eq(v, cv)
                if self.feasible(st, And(c, *neg)):
                    s2 = st.copy()
                    try: self.assume(s2, c)
                    except Dead: continue
                    res.append((s2, dict(env), bb, b, 0))
                neg.append(Not(c))
            n = And(*neg)
            if self.feasible(st, n):
                self.assume(st, n); res.append((st, env, I.ops[1], b, 0))
            return ("w", res)
        raise Unsupported(I.op)
    def check_dead_local(self, st, o):
        if "alive" in o.comps and not st.silent:
            k = FInt("k"); s2 = st.copy()
            a = self.fm_read(s2, o.comps["alive"], (k,), None)
            if a is UNINIT or a is False: return
            self.oblige(s2, Not(a), f"[{self.cur}] locals of opaque type are destroyed before their storage ends")
    def inst(self, st, env, I):
        o = I.op
        if o == "alloca":
            ob = self.new_obj(st, "local" + I.name, I.sty.size)
            env["#allocas"] = env["#allocas"] + (ob.id,)
            return Ptr(ob.id, 0)
        if o == "load": return self.load(st, self.op(st, env, I.ops[0]), I.ty, self.loc(I))
        if o == "store":
            self.store(st, self.op(st, env, I.ops[1]), I.ops[0].ty, self.op(st, env, I.ops[0]), self.loc(I)); return None
        if o == "getelementptr":
            return self.gep(st, self.op(st, env, I.ops[0]), I.sty, [self.op(st, env, x) for x in I.ops[1:]], [x.ty for x in I.ops[1:]])
        if o in ("add", "sub", "mul", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor"):
            if I.ty.kind != "int": raise Unsupported("vector arithmetic")
            a = self.op(st, env, I.ops[0]); b = self.op(st, env, I.ops[1])
            if I.sel and not self.optimistic and not st.silent and (I.nsw or I.nuw):
                # used by selects only: overflow matters only where the value is selected
                self.pend = pend = []
                try: v = self.binop(st, I, a, b)
                finally: self.pend = None
                env[("pend", I.id)] = tuple(pend); return v
            return self.binop(st, I, a, b)
        if o == "icmp": return self.icmp(st, I, self.op(st, env, I.ops[0]), self.op(st, env, I.ops[1]))
        if o == "select":
            c = self.op(st, env, I.ops[0]); a = self.op(st, env, I.ops[1]); b = self.op(st, env, I.ops[2])
            for x, cc in ((I.ops[1], c), (I.ops[2], Not(c))):
                if x.kind == "inst":
                    for g, nm in env.get(("pend", x.id), ()): self.oblige(st, Implies(cc, g), nm)
            return self.ite(st, c, a, b)
        if o == "zext":
            a = self.op(st, env, I.ops[0])
            if I.ops[0].ty.w == 1: return If(a, 1, 0)
            return a
        if o == "sext":
            a = self.op(st, env, I.ops[0])
            if I.ops[0].ty.w == 1: return If(a, (1 << I.ty.w) - 1, 0)
            return self.canon(st, self.sgn(st, a, I.ops[0].ty.w), I.ty.w)
        if o == "trunc":
            a = self.op(st, env, I.ops[0])
            if I.ty.w == 1: return Eq(Mod(a, 2), 1)
            if isc(a): return a % (1 << I.ty.w)
            if self.entailed(st, Lt(a, 1 << I.ty.w)): return a
            if self.entailed(st, Le((1 << I.ops[0].ty.w) - (1 << (I.ty.w - 1)), a)): return Sub(a, (1 << I.ops[0].ty.w) - (1 << I.ty.w))
            return Mod(a, 1 << I.ty.w)
        if o == "ptrtoint": return self.addr(self.op(st, env, I.ops[0]))
        if o == "inttoptr":
            a = self.op(st, env, I.ops[0])
            if isc(a) and a == 0: return NULL
            raise Unsupported("inttoptr")
        if o in ("bitcast", "freeze"): return self.op(st, env, I.ops[0])
        if o == "extractvalue":
            v = self.op(st, env, I.ops[0])
            for i in I.idx: v = v[i]
            return v
        if o == "insertvalue":
            v = self.op(st, env, I.ops[0]); x = self.op(st, env, I.ops[1])
            def ins(v, idx):
                l = list(v); l[idx[0]] = x if len(idx) == 1 else ins(l[idx[0]], idx[1:]); return tuple(l)
            return ins(v, I.idx)
        if o in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fcmp", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            return self.fp(st, env, I)
        if o in ("landingpad",):
            if not self.may_fail: raise Dead()
            return (NULL, 0)
        raise Unsupported("instruction " + o)
    def ite(self, st, c, a, b):
        d = self.decide(st, c)
        if d is True: return a
        if d is False: return b
        if isinstance(a, Ptr): return Ptr(If(c, a.obj, b.obj), If(c, a.off, b.off))
        if isinstance(a, tuple): return tuple(self.ite(st, c, x, y) for x, y in zip(a, b))
        return S(If(c, a, b))
    # floating point as mathematical reals (declared assumption), or - with self.rounding - as reals with an
    # arbitrary rounding error of at most 2^-53 relative per operation (exact when the result is a small integer)
    rounding = False
    def fround(self, st, x, exact=False):
        if not self.rounding:
            self.assumptions.add("machine floating point treated as exact real arithmetic"); return x
        self.assumptions.add("machine floating point treated as reals with relative rounding error 2^-53 per operation (no overflow, no underflow)")
        if exact or z3.is_rational_value(x): return x
        r = FReal("rd"); eps = z3.RealVal(1) / z3.RealVal(1 << 53)
        self.assume(st, z3.And(z3.Implies(x >= 0, z3.And(r >= x * (1 - eps), r <= x * (1 + eps))), z3.Implies(x <= 0, z3.And(r <= x * (1 - eps), r >= x * (1 + eps)))))
        self.assume(st, z3.Implies(z3.And(z3.IsInt(x), x <= (1 << 53), x >= -(1 << 53)), r == x))
        return r
    def narrow(self, st, x, ty, w=None):
        """conversion of x (an integer of w bits, or a wider floating-point number) to the type ty, which may not hold it exactly"""
        bits = {"float": 24, "double": 53}.get(ty.kind, 64)
        if w is not None and w <= bits: return x
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            f = x.as_fraction(); n = abs(f.numerator); d = f.denominator
            if d & (d - 1) == 0 and (n == 0 or (n // (n & -n)).bit_length() <= bits): return x
        r = FReal("nw"); eps = z3.RealVal(1) / z3.RealVal(1 << bits); lim = 1 << bits
        self.assume(st, z3.And(z3.Implies(x >= 0, z3.And(r >= x * (1 - eps), r <= x * (1 + eps))), z3.Implies(x <= 0, z3.And(r <= x * (1 - eps), r >= x * (1 + eps)))))
        self.assume(st, z3.Implies(z3.And(x <= lim, x >= -lim) if w is not None else z3.And(z3.IsInt(x), x <= lim, x >= -lim), r == x))
        return r
    def fp(self, st, env, I):
        a = self.op(st, env, I.ops[0]); b = self.op(st, env, I.ops[1]) if len(I.ops) > 1 else None
        o = I.op
        p2 = lambda v: z3.is_rational_value(v) and (lambda f: f != 0 and (abs(f.numerator) & (abs(f.numerator) - 1)) == 0 and (f.denominator & (f.denominator - 1)) == 0)(v.as_fraction())
        if o == "fadd": return self.fround(st, z3.simplify(a + b))
        if o == "fsub": return self.fround(st, z3.simplify(a - b))
        if o == "fmul": return self.fround(st, z3.simplify(a * b), p2(a) or p2(b))
        if o == "fdiv":
            self.oblige(st, S(b != 0), self.loc(I) + "real division is defined")
            return self.fround(st, z3.simplify(a / b), p2(b))
        if o == "fneg": return z3.simplify(-a)
        if o == "fcmp":
            p = I.pred
            f = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b, "gt": lambda: a > b, "ge": lambda: a >= b}
            if p == "true": return True
            if p == "false": return False
            if p == "ord": return True
            if p == "uno": return False
            return S(f[p[1:]]())
        if o == "fpext": return a
        if o == "fptrunc": return self.narrow(st, a, I.ty)
        if o == "sitofp": return self.narrow(st, S2R(self.sgn(st, a, I.ops[0].ty.w)), I.ty, I.ops[0].ty.w - 1)
        if o == "uitofp": return self.narrow(st, S2R(a), I.ty, I.ops[0].ty.w)
        if o == "fptosi":
            w = I.ty.w
            t = z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
            self.oblige(st, S(z3.And(t >= -(1 << (w - 1)), t < (1 << (w - 1)))), self.loc(I) + "conversion to int is in range")
            return self.canon(st, S(t), w)
        raise Unsupported(o)
    # ------------------------------------------------------------- calls
    def do_call(self, st, env, I):
        cal = I.callee
        if cal.kind == "inst" or cal.kind == "arg":
            p = self.op(st, env, cal)
            if isc(p.obj) and p.obj in self.idfn: fn = self.idfn[p.obj]
            elif isc(p.obj) and p.obj == 0:
                self.oblige(st, False, self.loc(I) + "called function pointer is not null"); raise Dead()
            elif isc(p.obj) and p.obj in st.mem and st.mem[p.obj].tag == "opaque-fn":
                args = [self.op(st, env, x) if x is not None else None for x in I.ops]
                return st.mem[p.obj].nocheck(self, st, args, I)
            else: raise Unsupported("indirect call to unknown function")
        elif cal.kind in ("func", "alias"):
            nm = self.m.aliases.get(cal.name, cal.name)
            fn = self.m.functions[nm]
        else: raise Unsupported("call of " + cal.kind)
        args = [self.op(st, env, x) if x is not None else None for x in I.ops]
        return self.call(st, fn, args, I)
    def call(self, st, fn, args, I=None):
        for rx, h in self.externs:
            mm = rx.fullmatch(fn.dem)
            if mm:
                if not fn.dem.startswith("llvm."): self.used_externs.add(fn.dem)
                r = h(self, st, fn, args, I)
                return norm_outs(r, st)
        for rx, h in self.contracts:
            if rx.fullmatch(fn.dem):
                r = h(self, st, fn, args, I)
                if r is not None:
                    self.used_contracts.add(fn.dem)
                    return norm_outs(r, st)
        if fn.decl: raise Unsupported("call of external function without contract: " + fn.dem)
        return self.call_fn(st, fn, args)

def S2R(x):
    if isinstance(x, int): return z3.RealVal(x)
    return z3.simplify(z3.ToReal(x))
def uf_apps(t):
    r = []; seen = set(); st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: r.append(x)
            st.extend(x.children())
    return r
class Outs(list): pass
def norm_outs(r, st):
    if isinstance(r, Outs): return list(r)
    return [("ret", st, r)]
def short(dem):
    s = re.sub(r"\(.*", "", dem)
    d = 0; out = ""
    for ch in s:
        if ch == "<": d += 1
        if d == 0: out += ch
        if ch == ">": d -= 1
    return out.split()[-1] if out.split() else dem[:40]

import loops as _loops
Engine.do_loop = _loops.do_loop

def map_equal(self, st, fa, fb, comp, name, t, arity=None, within=None):
    """obligation: two maps agree at every key"""
    stop = _loops.common(fa, fb)
    s2 = st.copy()
    ar = 1 if t[0] == "o" else (1 if comp == "#live" else 2)
    key = tuple(FInt("key") for _ in range(ar))
    for nd in (fa, fb):
        while nd is not None and nd is not stop:
            if nd.kind == "pt" and len(nd.a) != ar:
                ar = len(nd.a); key = tuple(FInt("key") for _ in range(ar))
            nd = nd.parent
    for sq in self.seqs: sq.touch(self, s2, key)
    if within is not None: self.assume(s2, within(key))
    if comp in ("alive", "#live"): base = FBool("base")
    elif comp[0] == "f" and comp[1:].isdigit(): base = FReal("base")
    else: base = FInt("base")
    if stop is not None and stop.kind == "base" and False: pass
    va = self.fm_read(s2, fa, key, None, base=base, stop=stop)
    vb = self.fm_read(s2, fb, key, None, base=base, stop=stop)
    if va is UNINIT and vb is UNINIT: return True
    if va is UNINIT or vb is UNINIT:
        # one side holds no value at any key
        return self.oblige(s2, False, name)
    return self.oblige(s2, Eq(va, vb), name)
Engine.map_equal = map_equal
Engine.seqs = []
Engine.reps = {}
Engine.inv_extra = []
Engine.inv_cands = []
Engine.force_closed = False
Engine.unroll_exits = 0
Engine.bufreps = []
