"""Contracts of cest streams: error-state bits (C18), input string streams (C17), memory-backed files (C23).
A string stream is (S, n, p): the characters of its buffer and the read position; its virtual calls run the real code."""
from spec import *
from strrep import *
HARNESS = "stream"
BAD, EOF, FAIL = 1, 2, 4
GOODS = ("C17", "C18", "C23")
class Lay: pass
def setup(T):
    T.done_externs(); T.V = Str(T); L = T.L = Lay(); T.e.unroll_exits = 4
    for n in ("IS_size", "SS_size", "I_size", "IS_buf", "SS_buf", "B_size", "I_gcount", "I_state", "I_exc", "I_flags", "I_tie", "I_sb", "I_prec", "I_width", "B_beg", "B_cur", "B_end", "B_obeg", "B_ocur", "B_oend", "B_mode", "B_str"): setattr(L, n, T.cval(n))
def bit(x, b): return Eq(Mod(Div(x, b), 2), 1)
def bor(x, b):
    for k in (1, 2, 4):
        if b & k: x = If(bit(x, k), x, Add(x, k))
    return x
def bmix(x, y):                   # x | y for symbolic x, y below 8
    r = 0
    for k in (1, 2, 4): r = Add(r, If(Or(bit(x, k), bit(y, k)), k, 0))
    return r
def band0(x, y):                  # (x & y) == 0
    return And(*[Not(And(bit(x, k), bit(y, k))) for k in (1, 2, 4)])
def vtable(T, rx):
    c = T.e.m.gfind(rx)
    if len(c) != 1: raise Unsupported(f"vtable {rx}: {c}")
    return Ptr(T.e.global_ptr(T.st, c[0]).obj, 16)
VT = {"IS": r"vtable for cest::basic_istringstream<char, .*", "SS": r"vtable for cest::basic_stringstream<char, .*", "B": r"vtable for cest::basic_stringbuf<char, .*", "I": r"vtable for cest::basic_istream<char, .*"}
def bits(T, name="b"):
    x = FInt(name); T.assume(InRange(0, x, 8)); return x
def ios_fields(T, o, state, exc, sb):
    L = T.L
    T.set_cell(o, L.I_state, "i32", state); T.set_cell(o, L.I_exc, "i32", exc); T.set_cell(o, L.I_sb, "p", sb); T.set_cell(o, L.I_tie, "p", NULL)
    T.set_cell(o, L.I_flags, "i32", 4098); T.set_cell(o, L.I_prec, "i64", 6); T.set_cell(o, L.I_width, "i64", 0); T.set_cell(o, L.I_gcount, "i64", T.int("gcount0"))
def ios(T, name, state, exc, buf):
    """an istream with or without an associated buffer"""
    o = T.struct(name, T.L.I_size); T.set_cell(o, 0, "p", vtable(T, VT["I"]))
    ios_fields(T, o, state, exc, Ptr(T.struct(name + ".buf", T.L.B_size).id, 0) if buf else NULL); return Ptr(o.id, 0)
def stream(T, name, kind="IS", state=0, fresh=False, heap=False):
    """a string stream holding characters S[0..n), positioned at p; fresh: default-constructed, no get area"""
    L = T.L; m = Model(); o = T.e.new_obj(T.st, name, getattr(L, kind + "_size"), heap=heap); m.p = Ptr(o.id, 0); m.kind = kind
    T.set_cell(o, 0, "p", vtable(T, VT[kind])); m.b = getattr(L, kind + "_buf"); m.state = state
    ios_fields(T, o, state, 0, Ptr(o.id, m.b)); B = m.b
    T.set_cell(o, B, "p", vtable(T, VT["B"])); m.fresh = fresh
    s = T.V.make(name + ".s"); so = B + L.B_str; m.s = s; m.mode = T.int("mode", 6)
    if fresh: T.assume(Eq(s.n, 0))
    T.set_cell(o, so + T.osz, "i64", s.n); T.set_cell(o, so + T.ocap, "i64", s.cap); T.set_cell(o, so + T.op, "p", s.data); del T.st.mem[s.p.obj]
    m.n = 0 if fresh else s.n; m.at = 0 if fresh else T.int("at"); T.assume(Le(m.at, m.n))
    T.set_cell(o, B + L.B_mode, "i32", 8 if kind == "IS" else 24)
    base = NULL if fresh else s.data
    for f, k in (("B_beg", 0), ("B_cur", m.at), ("B_end", m.n), ("B_obeg", 0), ("B_ocur", 0), ("B_oend", 0)):
        T.set_cell(o, B + getattr(L, f), "p", (NULL if "o" in f[2:] and (fresh or kind == "IS") else Ptr(base.obj, k) if base.obj else NULL))
    return m
def buf_ok(T, st, p, b, n, want, at, why):
    """the stream object at p with its stringbuf at offset b holds characters want[0..n), positioned at `at`; -> string model"""
    L = T.L; s = T.V.read(st, Ptr(p.obj, b + L.B_str), why); T.V.same(st, s, n, want, why)
    at_ok(T, st, p, b, s.data, at, n, why); return s
def at_ok(T, st, p, b, data, at, n, why):
    L = T.L
    T.must(st, PEq(T.cell(st, p, b + L.B_cur, "p"), Ptr(data.obj, Add(data.off, at))), why + ": read position")
    T.must(st, PEq(T.cell(st, p, b + L.B_beg, "p"), data), why + ": start of the get area"); T.must(st, PEq(T.cell(st, p, b + L.B_end, "p"), Ptr(data.obj, Add(data.off, n))), why + ": end of the get area")
def kept(T, st, m, at, why):
    """same characters, at position `at`"""
    if m.fresh:
        for f in ("B_beg", "B_cur", "B_end"): T.must(st, PEq(T.cell(st, m.p, m.b + getattr(T.L, f), "p"), NULL), why + ": empty get area")
        T.V.read(st, Ptr(m.p.obj, m.b + T.L.B_str), why); return
    s = buf_ok(T, st, m.p, m.b, m.n, m.s.S, at, why); T.must(st, s.buf == m.s.buf, why + ": same buffer")
    ios_ok(T, st, m.p, m.b, why)
def ios_ok(T, st, p, b, why, sb=True):
    T.must(st, PEq(T.cell(st, p, T.L.I_sb, "p"), Ptr(p.obj, b) if sb else NULL), why + ": the stream reads its own buffer"); T.must(st, PEq(T.cell(st, p, T.L.I_tie, "p"), NULL), why + ": not tied"); T.must(st, Eq(T.cell(st, p, T.L.I_exc, "i32"), 0), why + ": exception mask")
def state(T, st, p, v, why): T.must(st, Eq(T.cell(st, p, T.L.I_state, "i32"), v), why + ": state bits")
def gcount(T, st, p, v, why): T.must(st, Eq(T.cell(st, p, T.L.I_gcount, "i64"), v), why + ": count")
# ---------------------------------------------------------------- C18
THROW = r"std::__throw_ios_failure\(.*\)"
for buf in (0, 1):
    w = "buffer" if buf else "no buffer"
    for nm in ("ios_clear", "ios_clear0", "ios_setstate", "ios_setexc"):
        @task("C18", f"{nm}[{w}]")
        def t(T, nm=nm, buf=buf):
            setup(T); s0 = bits(T, "state"); exc = bits(T, "mask"); s = ios(T, "s", s0, exc, buf); b = bits(T, "b")
            want, mask = {"ios_clear": (b, exc), "ios_clear0": (0, exc), "ios_setstate": (bmix(s0, b), exc), "ios_setexc": (s0, b)}[nm]
            if not buf: want = bor(want, BAD)
            def chk(st): state(T, st, s, want, nm); T.must(st, Eq(T.cell(st, s, T.L.I_exc, "i32"), mask), nm + ": exception mask")
            outs = T.call(nm, s, *([] if nm == "ios_clear0" else [b]))
            for o in outs:
                if o[0] == "throw": T.each(o[1], lambda st: chk(st))
            T.post(outs, lambda st, r: (chk(st), T.must(st, band0(want, mask), "returns only when no masked bit is set"), T.frame(st, [])), throws=[(THROW, lambda st: Not(band0(want, mask)))])
    for nm, f in (("ios_rdstate", lambda x: x), ("ios_good", lambda x: Eq(x, 0)), ("ios_eof", lambda x: bit(x, EOF)), ("ios_fail", lambda x: Or(bit(x, BAD), bit(x, FAIL))), ("ios_bool", lambda x: Not(Or(bit(x, BAD), bit(x, FAIL)))), ("ios_not", lambda x: Or(bit(x, BAD), bit(x, FAIL)))):
        @task("C18", f"{nm}[{w}]")
        def t(T, nm=nm, f=f, buf=buf):
            setup(T); s0 = bits(T, "state"); s = ios(T, "s", s0, bits(T, "mask"), buf)
            T.post(T.call(nm, s), lambda st, r: (T.must(st, Eq(r, f(s0)) if nm == "ios_rdstate" else zb(r) == zb(f(s0)), nm + ": reports the bits by their definition"), T.frame(st, [], [s.obj])))
    @task("C18", f"ios_exc[{w}]")
    def t(T, buf=buf):
        setup(T); e = bits(T, "mask"); s = ios(T, "s", bits(T, "state"), e, buf)
        T.post(T.call("ios_exc", s), lambda st, r: (T.must(st, Eq(r, e), "reports the mask"), T.frame(st, [], [s.obj])))
    @task("C18", f"ios_rdbuf[{w}]")
    def t(T, buf=buf):
        setup(T); s = ios(T, "s", bits(T, "state"), 0, buf); b = T.cell(T.st, s, T.L.I_sb, "p")
        T.post(T.call("ios_rdbuf", s), lambda st, r: (T.must(st, PEq(r, b), "reports the buffer"), T.frame(st, [], [s.obj])))
    @task("C18", f"i_ctor[{w}]")
    def t(T, buf=buf):
        setup(T); s = Ptr(T.struct("s", T.L.I_size).id, 0); b = Ptr(T.struct("buf", T.L.B_size).id, 0) if buf else NULL
        def post(st, r):
            state(T, st, s, 0 if buf else BAD, "a new stream is good with a buffer and bad without"); T.must(st, PEq(T.cell(st, s, T.L.I_sb, "p"), b), "uses the given buffer"); gcount(T, st, s, 0, "new stream"); T.must(st, Eq(T.cell(st, s, T.L.I_exc, "i32"), 0), "no exceptions"); T.must(st, PEq(T.cell(st, s, T.L.I_tie, "p"), NULL), "not tied"); T.frame(st, [])
        T.post(T.call("i_ctor", s, b), post)
# ---------------------------------------------------------------- C17 (and the parts of C23)
for kind in ("IS", "SS"):
    k = kind.lower()
    @task(["C17", "C18"], k + "_ctor")
    def t(T, kind=kind, k=k):
        setup(T); s = Ptr(T.struct("s", getattr(T.L, kind + "_size")).id, 0); b = getattr(T.L, kind + "_buf")
        def post(st, r):
            m = T.V.read(st, Ptr(s.obj, b + T.L.B_str), "string"); T.must(st, Eq(m.n, 0), "empty")
            for f in ("B_beg", "B_cur", "B_end"): T.must(st, PEq(T.cell(st, s, b + getattr(T.L, f), "p"), NULL), "nothing to read")
            state(T, st, s, 0, "a new stream is good"); gcount(T, st, s, 0, "new stream"); ios_ok(T, st, s, b, "new stream"); T.frame(st, [m.buf])
        T.post(T.call(k + "_ctor", s), post)
    for md in (None, 8, 24, 10, 12, 26, 9, 13, 0) if kind == "IS" else (None, 8, 24, 26, 12, 28):
        @task(["C17", "C18"], f"{k}_ctor_{'s' if md is None else f'm[{md}]'}")
        def t(T, kind=kind, k=k, md=md):
            setup(T); s = Ptr(T.struct("s", getattr(T.L, kind + "_size")).id, 0); b = getattr(T.L, kind + "_buf"); x = T.V.make("x"); T.assume(Lt(x.n, lib.MAXSZ // 4))
            def post(st, r):
                m = buf_ok(T, st, s, b, x.n, x.S, 0, "construction"); T.must(st, m.buf != x.buf, "the buffer is the stream's own"); T.V.unchanged(st, x, "source unchanged")
                state(T, st, s, 0, "a new stream is good"); gcount(T, st, s, 0, "new stream"); ios_ok(T, st, s, b, "new stream"); T.frame(st, [m.buf, x.buf])
            T.post(T.call(f"{k}_ctor_s" if md is None else f"{k}_ctor_m", s, x.p, *([] if md is None else [md])), post)
    for fr in (0, 1):
        w = f"[{kind}{',fresh' if fr else ''}]"
        @task("C17", f"{k}_str{w}")
        def t(T, kind=kind, k=k, fr=fr):
            setup(T); s0 = bits(T, "state"); m = stream(T, "s", kind, s0, fr); x = T.V.make("x"); T.assume(Lt(x.n, lib.MAXSZ // 4)); T.assume(Lt(m.s.cap, lib.MAXSZ // 4))
            def post(st, r):
                y = buf_ok(T, st, m.p, m.b, x.n, x.S, 0, "str"); T.must(st, y.buf != x.buf, "the buffer is the stream's own"); T.V.unchanged(st, x, "source unchanged"); state(T, st, m.p, s0, "str keeps the state"); ios_ok(T, st, m.p, m.b, "str"); T.frame(st, [y.buf, x.buf])
            T.post(T.call(k + "_str", m.p, x.p), post)
        @task("C17", f"{k}_dtor{w}")
        def t(T, kind=kind, k=k, fr=fr):
            setup(T); m = stream(T, "s", kind, bits(T, "state"), fr)
            T.post(T.call(k + "_dtor", m.p), lambda st, r: T.frame(st, []))
        @task("C17", "i_gcount" + w)
        def t(T, kind=kind, fr=fr):
            setup(T); m = stream(T, "s", kind, bits(T, "state"), fr); g = T.cell(T.st, m.p, T.L.I_gcount, "i64")
            T.post(T.call("i_gcount", m.p), lambda st, r: (T.must(st, Eq(r, g), "reports the count"), T.frame(st, [m.s.buf], [m.p.obj])))
        @task("C17", "i_get" + w)
        def t(T, kind=kind, fr=fr):
            setup(T); s0 = bits(T, "state"); m = stream(T, "s", kind, s0, fr); c = T.struct("c", 1); c0 = T.int("c0", 8); T.set_cell(c, 0, "i8", c0); c = Ptr(c.id, 0)
            def post(st, r):
                T.must(st, PEq(r, m.p), "returns the stream"); v = T.cell(st, c, 0, "i8")
                if T.split(st, Ne(s0, 0)): state(T, st, m.p, bor(s0, FAIL), "get on a failed stream"); gcount(T, st, m.p, 0, "get on a failed stream"); kept(T, st, m, m.at, "get on a failed stream"); T.must(st, Eq(v, c0), "a failed stream delivers nothing")
                elif T.split(st, Lt(m.at, m.n)): state(T, st, m.p, 0, "get"); gcount(T, st, m.p, 1, "get"); kept(T, st, m, Add(m.at, 1), "get"); T.must(st, Eq(v, m.s.S(m.at)), "get delivers the next character")
                else: state(T, st, m.p, EOF | FAIL, "get at the end"); gcount(T, st, m.p, 0, "get at the end"); kept(T, st, m, m.at, "get at the end"); T.must(st, Eq(v, c0), "get at the end delivers nothing")
                T.frame(st, [m.s.buf])
            T.post(T.call("i_get", m.p, c), post)
        @task("C17", "i_unget" + w)
        def t(T, kind=kind, fr=fr):
            setup(T); s0 = bits(T, "state"); m = stream(T, "s", kind, s0, fr); s1 = Sub(s0, If(bit(s0, EOF), EOF, 0))
            def post(st, r):
                T.must(st, PEq(r, m.p), "returns the stream"); gcount(T, st, m.p, 0, "unget")
                if T.split(st, Ne(s1, 0)): state(T, st, m.p, bor(s1, FAIL), "unget on a failed stream"); kept(T, st, m, m.at, "unget on a failed stream")
                elif T.split(st, Lt(0, m.at)): state(T, st, m.p, 0, "unget"); kept(T, st, m, Sub(m.at, 1), "unget")
                else: state(T, st, m.p, BAD, "unget at the start"); kept(T, st, m, 0, "unget at the start")
                T.frame(st, [m.s.buf])
            T.post(T.call("i_unget", m.p), post)
        for nm in ("i_read", "c_fread"):
            if nm == "c_fread" and (kind == "IS" or fr): continue
            @task("C23" if nm == "c_fread" else "C17", nm + w)
            def t(T, kind=kind, fr=fr, nm=nm):
                setup(T); s0 = bits(T, "state"); m = stream(T, "s", kind, s0, fr); n = T.int("req"); sz = T.int("room"); T.assume(And(Le(n, sz), Lt(sz, 1 << 63)))
                d = T.struct("dest", sz); d.dtype = "i8"; f = FFun("D", z3.IntSort(), z3.IntSort()); d.comps["i8"] = FM.base(bytes_of(T, f, lambda k: InRange(0, k, sz))); d = Ptr(d.id, 0)
                rest = Sub(m.n, m.at); got = lambda s, i: T.e.fm_read(s, s.mem[d.obj].comp("i8"), (i,), None)
                def deliver(st, k, why):
                    gcount(T, st, m.p, k, why); kept(T, st, m, Add(m.at, k), why)
                    T.all(st, 0, k, lambda s, i: Eq(got(s, i), m.s.S(Add(m.at, i))), why + ": character i is delivered in order")
                    T.all(st, k, sz, lambda s, i: Eq(got(s, i), f(zi(i))), why + ": nothing else is written")
                def post(st, r):
                    if nm == "i_read": T.must(st, PEq(r, m.p), "returns the stream")
                    if T.split(st, Ne(s0, 0)): state(T, st, m.p, bor(s0, FAIL), "read on a failed stream"); deliver(st, 0, "read on a failed stream"); k = 0
                    elif T.split(st, Le(n, rest)): state(T, st, m.p, 0, "full read"); deliver(st, n, "full read"); k = n
                    else: state(T, st, m.p, EOF | FAIL, "short read"); deliver(st, rest, "short read"); k = rest
                    if nm == "c_fread": T.must(st, Eq(r, k), "fread returns the number of bytes delivered")
                    T.frame(st, [m.s.buf])
                T.post(T.call(nm, *([m.p, d, n] if nm == "i_read" else [d, n, m.p])), post)
@task("C23", "c_fmemopen")
def t(T):
    setup(T); x = chars(T, "bytes"); T.assume(Lt(x.n, lib.MAXSZ // 4)); md = Ptr(T.struct("mode", 2).id, 0)
    def post(st, r):
        T.must(st, isc(r.obj) and r.obj in st.mem and r.off == 0, "returns a stream"); o = st.mem[r.obj]; T.must(st, o.heap and o.live, "a live heap object"); T.must(st, Eq(o.size, T.L.SS_size), "of the stream's size")
        m = buf_ok(T, st, r, T.L.SS_buf, x.n, x.S, 0, "fmemopen"); state(T, st, r, 0, "fmemopen"); ios_ok(T, st, r, T.L.SS_buf, "fmemopen")
        T.must(st, PEq(T.cell(st, r, 0, "p"), vtable(T, VT["SS"])), "a string stream"); T.must(st, PEq(T.cell(st, r, T.L.SS_buf, "p"), vtable(T, VT["B"])), "with its own buffer object"); T.frame(st, [r.obj, m.buf], [x.obj])
    T.post(T.call("c_fmemopen", x.p, x.n, md), post)
for kind in ("SS", "IS"):
    @task("C23", f"c_fclose[{kind}]")
    def t(T, kind=kind):
        setup(T); m = stream(T, "s", kind, bits(T, "state"), heap=True)
        T.post(T.call("c_fclose", m.p), lambda st, r: (T.must(st, Eq(r, 0), "succeeds"), T.must(st, not st.mem[m.p.obj].live, "the stream is released"), T.frame(st, [])))
