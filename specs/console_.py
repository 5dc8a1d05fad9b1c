"""C27: the console streams and printf hand what they are given to the standard streams of the same name.
Ghost trace: every output the code makes through the C++ or C standard library, with its destination."""
from spec import *
from strrep import *
HARNESS = "console"
P = "C27"
STD = {"cout": "_ZSt4cout", "cerr": "_ZSt4cerr", "clog": "_ZSt4clog"}
def where(e, p):
    """name of the standard stream object p points to"""
    for n, (id, *_r) in e.globs.items():
        if isc(p.obj) and id == p.obj:
            for k, v in STD.items():
                if v == n: return k
    raise Unsupported("output to an unknown standard stream object")
def ev(st, *x): st.ghost["ev"] = st.ghost.get("ev", ()) + (x,)
def text(e, st, p, n, w):
    """the n characters at p, as they are now: (n, getter)"""
    if n == 0: return (0, None)
    r = e.resolve(st, p, n, w)
    if r[0] != "o": raise Unsupported("text in a node family")
    o, off = r[1], r[2]; m = o.comp("i8")
    return (n, lambda s, i: e.fm_read(s, m, (Add(off, i),), w + "written character"))
def one_char(c): return (1, lambda s, i: Mod(c, 256))
OS = r"std::(?:ostream|basic_ostream<char, std::char_traits<char> ?>)"
def special(e, st, to, p):
    nm = [f.dem for f in e.m.functions.values() if isc(p.obj) and e.idfn.get(p.obj) is f]
    if nm and re.search(r"\bstd::endl<", nm[0]): ev(st, to, "text", one_char(10)); ev(st, to, "flush")
    elif nm and re.search(r"\bstd::flush<", nm[0]): ev(st, to, "flush")
    else: ev(st, to, "call", p)
def setup(T):
    e = T.e; T.fmts = []
    def reg(rx, f): e.externs.append((re.compile(rx), f))
    def num(e, st, fn, a, I):
        ty = re.search(r"\(([a-z ]+)\)$", fn.dem)[1]; w = I.ops[1].ty.w; v = a[1]
        if ty != "bool" and not ty.startswith("unsigned"): v = e.sgn(st, v, w)
        ev(st, where(e, a[0]), "number", ty, v); return a[0]
    reg(OS + r"::operator<<\((?:bool|short|unsigned short|int|unsigned int|long|unsigned long|long long|unsigned long long)\)", num)
    def fp(e, st, fn, a, I): special(e, st, where(e, a[0]), a[1]); return a[0]
    reg(OS + r"::operator<<\(" + OS + r"& \(\*\)\(" + OS + r"&\)\)", fp)
    def direct(e, st, fn, a, I): special(e, st, where(e, a[0]), e.fn_ptr(fn)); return a[0]
    reg(r".*std::(endl|flush)<char, std::char_traits<char> ?>\(.*\)", direct)
    def flush(e, st, fn, a, I): ev(st, where(e, a[0]), "flush"); return a[0]
    reg(OS + r"::flush\(\)", flush)
    def ch(e, st, fn, a, I): ev(st, where(e, a[0]), "text", one_char(a[1])); return a[0]
    reg(r".*std::operator<< ?<.*\(.*&, char\)", ch); reg(OS + r"::put\(char\)", ch)
    def cs(e, st, fn, a, I):
        w = e.loc(I); n = lib.strlen_(e, st, fn, [a[1]], I); ev(st, where(e, a[0]), "text", text(e, st, a[1], n, w)); return a[0]
    reg(r".*std::operator<< ?<.*\(.*&, char const\*\)", cs)
    def wr(e, st, fn, a, I): ev(st, where(e, a[0]), "text", text(e, st, a[1], e.sgn(st, a[2], 64), e.loc(I))); return a[0]
    reg(OS + r"::write\(char const\*, long\)", wr); reg(r".*std::__ostream_insert<.*\(.*&, char const\*, long\)", wr)
    def printf(e, st, fn, a, I):
        r = FInt("printed"); e.assume(st, InRange(0, r, 1 << 32)); ev(st, "stdout", "printf", a[0], tuple(a[1:]), r); return r
    reg(r"printf", printf)
    def snprintf(e, st, fn, a, I):
        """formatting depends on the format and the arguments only; the result is what was or would have been written"""
        w = e.loc(I); buf, size, fmt, args = a[0], a[1], a[2], tuple(a[3:])
        for (fm, ag, N, f) in st.ghost.get("fmt", ()):
            if PEq(fm, fmt) is True and len(ag) == len(args) and all(same(x, y) is True for x, y in zip(ag, args)): break
        else:
            for (fm, ag, N, f) in T.fmts:      # a function of the format and the arguments: the same on every path
                if PEq(fm, fmt) is True and len(ag) == len(args) and all(same(x, y) is True for x, y in zip(ag, args)): break
            else:
                N = FInt("formatted"); f = FFun("formatted_text", z3.IntSort(), z3.IntSort()); T.fmts.append((fmt, args, N, f))
            e.assume(st, InRange(-1, N, 1 << 31)); st.ghost["fmt"] = st.ghost.get("fmt", ()) + ((fmt, args, N, f),)
        if e.decide(st, Eq(size, 0)) is True: return e.canon(st, N, 32)
        z = [e.decide(st, c) for c in (Eq(size, 0), Lt(N, 0), Lt(N, size))]
        if None in z: raise Fork([Eq(size, 0), And(Ne(size, 0), Lt(N, 0)), And(Ne(size, 0), Le(0, N), Lt(N, size)), And(Ne(size, 0), Le(0, N), Not(Lt(N, size)))])
        if z[0]: return e.canon(st, N, 32)
        r = e.resolve(st, buf, size, w + "the buffer is as large as stated: ", True)
        if z[1]: return e.canon(st, N, 32)
        k = If(Lt(N, size), N, Sub(size, 1)) if not z[2] else N
        o = st.wobj(r[1].id); d = r[2]; src = FM.base(bytes_of(T, f, lambda k: True))
        if o.dtype is None: o.dtype = "i8"
        o.comps["i8"] = o.comp("i8").rgsub(lambda key: And(Le(d, key[0]), Lt(key[0], Add(d, k))), src, lambda key: (Sub(key[0], d),)).pt((Add(d, k),), 0)
        st.ghost["nuls"] = st.ghost.get("nuls", ()) + ((o.id, Add(d, k)),); return e.canon(st, N, 32)
    reg(r"snprintf", snprintf)
    T.done_externs(); T.V = Str(T)
def same(x, y):
    if isinstance(x, Ptr): return PEq(x, y) if isinstance(y, Ptr) else False
    if isinstance(y, Ptr): return False
    return Eq(x, y) if not (z3.is_expr(x) and z3.is_real(x) or z3.is_expr(y) and z3.is_real(y)) else S(x == y)
def console(T, k):
    """one of the three console streams in an arbitrary state, or any other stream"""
    if k == "other": o = T.struct("stream", T.cval("O_size"))
    else:
        p = T.e.global_ptr(T.st, f"_ZN4cest4{k}E")
        try: T.e.global_ptr(T.st, STD[k])
        except (KeyError, AttributeError, TypeError, Unsupported): pass      # never mentioned by the code
        o = T.st.wobj(p.obj)
    for f in ("state", "exc", "flags"): T.set_cell(o, T.cval("O_" + f), "i32", T.int("any_" + f, 32))
    for f in ("prec", "width"): T.set_cell(o, T.cval("O_" + f), "i64", T.int("any_" + f))
    return Ptr(o.id, 0)
def check(T, st, want, why):
    got = list(st.ghost.get("ev", ())); want = list(want)
    drop = lambda l: [x for x in l if not (x[1] == "text" and T.split(st, Eq(x[2][0], 0)))]
    got, want = drop(got), drop(want)
    T.must(st, len(got) == len(want), f"{why}: exactly {len(want)} output(s) to the standard streams")
    for g, w in zip(got, want):
        T.must(st, g[0] == w[0], f"{why}: the destination is std::{w[0]}"); T.must(st, g[1] == w[1] and (g[1] != "number" or g[2] == w[2]), f"{why}: what is written is a {w[1]}")
        if g[:2] != w[:2]: continue
        if w[1] == "number": T.must(st, Eq(g[3], w[3]), f"{why}: the number written is the one given")
        if w[1] == "call": T.must(st, PEq(g[2], w[2]), f"{why}: the function called is the one given")
        if w[1] == "printf":
            T.must(st, PEq(g[2], w[2]), f"{why}: the format is the one given"); T.must(st, len(g[3]) == len(w[3]), f"{why}: all arguments and no others are passed")
            for x, y in zip(g[3], w[3]): T.must(st, same(x, y), f"{why}: the arguments are passed unchanged")
        if w[1] == "text":
            T.must(st, Eq(g[2][0], w[2][0]), f"{why}: all characters are written and no others")
            T.all(st, 0, w[2][0], lambda s, i: Eq(g[2][1](s, i), w[2][1](s, i)), f"{why}: the characters written are the ones given")
KS = ("cout", "cerr", "clog", "other")
def out(name, mk, why):
    """for each stream: mk(T) -> (arguments, events for destination `to`)"""
    for k in KS:
        @task(P, f"{why}: {k}")
        def t(T, k=k):
            setup(T); o = console(T, k); args, want = mk(T)
            def post(st, r):
                check(T, st, [] if k == "other" else want(k), f"{why} into {k}"); T.must(st, PEq(r, o), f"{why}: returns the stream"); T.frame(st, own(T), unchanged=[o.obj] + [a.obj for a in args if isinstance(a, Ptr) and a.obj in T.st.mem])
            T.post(T.call(name, o, *args), post)
def own(T): return {i for i, x in T.st.mem.items() if x.heap}
def mk_num(ty, w, signed):
    def mk(T):
        v = T.int("v", w); return [v], lambda to: [(to, "number", ty, T.e.sgn(T.st, v, w) if signed else v)]
    return mk
out("o_int", lambda T: (lambda v: ([v], lambda to: [(to, "number", "int", S(z3.If(v < 2**31, v, v - 2**32)))]))(T.int("v", 32)), "inserting an int")
out("o_uint", lambda T: (lambda v: ([v], lambda to: [(to, "number", "unsigned int", v)]))(T.int("v", 32)), "inserting an unsigned int")
out("o_char", lambda T: (lambda v: ([v], lambda to: [(to, "text", one_char(v))]))(T.int("v", 8)), "inserting a character")
def mk_c(T): c = cstr(T); return [c.p], lambda to: [(to, "text", (c.n, lambda s, i: c.S(i)))]
out("o_cstr", mk_c, "inserting a C string")
def mk_s(T): s = T.V.make("s"); return [s.p], lambda to: [(to, "text", (s.n, lambda st, i: s.S(i)))]
out("o_str", mk_s, "inserting a string")
out("o_endl", lambda T: ([], lambda to: [(to, "text", one_char(10)), (to, "flush")]), "inserting endl")
out("o_endl_call", lambda T: ([], lambda to: [(to, "text", one_char(10)), (to, "flush")]), "calling endl")
# ---------------------------------------------------------------- manipulators
for nm, own_result in (("o_pf", True), ("o_pfios", False), ("o_pfbase", False)):
    @task(P, "manipulator: " + nm)
    def t(T, nm=nm, own_result=own_result):
        setup(T); o = console(T, "other"); ret = console(T, "other"); calls = []
        def h(e, st, args, I): st.ghost["manip"] = st.ghost.get("manip", ()) + (args[0],); return Outs([("ret", st, ret)])
        f = T.struct("manipulator", 1); f.tag = "opaque-fn"; f.nocheck = h
        def post(st, r):
            c = st.ghost.get("manip", ()); T.must(st, len(c) == 1, "the manipulator is called exactly once"); T.must(st, all(x.obj == o.obj for x in c), "the manipulator is given the stream"); T.must(st, PEq(r, ret if own_result else o), "returns what the manipulator returns" if own_result else "returns the stream"); check(T, st, [], "manipulator")
        T.post(T.call(nm, o, Ptr(f.id, 0)), post)
# ---------------------------------------------------------------- printf
def arg(T, kind): return T.int("arg", 32) if kind == "i" else cstr(T, "argstr").p if kind == "s" else FReal("arg")
for nm, kinds in (("p_plain", ""), ("p_int", "i"), ("p_three", "isd")):
    @task(P, "printf: " + (kinds or "no arguments"))
    def t(T, nm=nm, kinds=kinds):
        setup(T); f = cstr(T, "format"); a = [arg(T, k) for k in kinds]
        def post(st, r):
            g = [x for x in st.ghost.get("ev", ())]; check(T, st, [("stdout", "printf", f.p, tuple(a))], "printf")
            if len(g) == 1 and g[0][1] == "printf": T.must(st, Eq(r, g[0][4]), "printf: returns what the C function returns")
        T.post(T.call(nm, f.p, *a), post)
for nm, kinds in (("fp_plain", ""), ("fp_int", "i"), ("fp_three", "isd")):
    for k in KS:
        @task(P, f"fprintf: {kinds or 'no arguments'}: {k}")
        def t(T, nm=nm, kinds=kinds, k=k):
            setup(T); o = console(T, k); f = cstr(T, "format"); a = [arg(T, x) for x in kinds]
            def post(st, r):
                g = [x for x in st.ghost.get("fmt", ()) if PEq(x[0], f.p) is True and len(x[1]) == len(a) and all(same(x1, y1) is True for x1, y1 in zip(x[1], a))]
                T.must(st, len(g) == 1, "fprintf: the format is applied to the arguments given")
                if len(g) != 1: return
                N, tx = g[0][2], g[0][3]; b = bytes_of(T, tx, lambda k: True); neg = T.split(st, Lt(N, 0))
                T.must(st, Eq(T.e.sgn(st, r, 32), N), "fprintf: returns the number of characters, or the error")
                check(T, st, [] if neg or k == "other" else [(k, "text", (N, lambda s, i: (b((i,)), tx(zi(i)))[1]))], "fprintf to " + k); T.frame(st, own(T), unchanged=[o.obj])
            T.post(T.call(nm, o, f.p, *a), post)
@task(P, "stdout and stderr")
def t(T):
    setup(T)
    for f, g in (("f_stdout", "cout"), ("f_stderr", "cerr"), ("c_clog", "clog")):
        p = T.e.global_ptr(T.st, f"_ZN4cest4{g}E"); T.post(T.call(f), lambda st, r, p=p, f=f: T.must(st, PEq(r, p), f + " is the console stream"))
