"""check <property> [tier]: verify every contract the property depends on against /repo's current source."""
import sys, os, time, json, re, traceback, importlib, subprocess, tempfile, shutil, multiprocessing as mp, multiprocessing.pool
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "dv"), os.path.join(ROOT, "specs")]
REPO = os.environ.get("CEST_REPO", "/repo")
CXX = "/usr/bin/clang++-18"
EXTRACT = [CXX, "-std=c++2a", "-w", "-I" + REPO + "/include", "-O1", "-Xclang", "-disable-llvm-passes", "-g1",
           "-fno-access-control", "-fsized-deallocation", "-emit-llvm", "-c"]
OPT = ["/usr/bin/opt", "-passes=sroa,simplifycfg,early-cse"]
REPLAY = [CXX, "-std=c++2a", "-w", "-O1", "-g1", "-fsized-deallocation", "-fno-access-control", "-fsanitize=address,undefined",
          "-fno-sanitize=unsigned-integer-overflow", "-fno-sanitize-recover=all", "-I" + REPO + "/include"]
import index

def build(h, out, mode=None):
    """extract harness h from the current source; mode: how is_constant_evaluated is answered (C24)"""
    x = "" if mode is None else f".ce{mode}"
    bc0 = os.path.join(out, h + x + ".0.bc"); bc = os.path.join(out, h + x + ".bc")
    p = subprocess.run(EXTRACT + ([] if mode is None else ["-include", os.path.join(ROOT, "harness", "ce.hpp"), f"-DVP_CE={mode}"]) + [os.path.join(ROOT, "harness", h + ".cpp"), "-o", bc0], capture_output=True, text=True, timeout=300)
    if p.returncode: return p.stderr[:3000] or "clang failed"
    p = subprocess.run(OPT + [bc0, "-o", bc], capture_output=True, text=True, timeout=300)
    if p.returncode: return p.stderr[:3000] or "opt failed"
    return None

_mods = {}
def worker_limits():
    """a diverging exploration of changed code must not exhaust the machine's memory"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
def run_task(job):
    modname, harness, name, bc, limit, thorough = job
    import spec as SP, llvmir
    r = dict(name=name, harness=harness, obs=[], err=None, inlined=[], contracts=[], externs=[], assum=[], checks=0, stime=0.0, wall=0.0, loops=[], covers=0)
    t0 = time.time()
    try:
        if modname not in sys.modules: importlib.import_module(modname)
        f = next(f for m, n, f, kw, props in SP.ALL if m == modname and n == name)
        if bc not in _mods: _mods[bc] = llvmir.Module(bc)
        T = SP.Task(_mods[bc], name)
        T.e.deadline = time.time() + limit; T.e.second = thorough
    except Exception as ex:
        r["err"] = f"{type(ex).__name__}: {ex}"; return r
    try: f(T)
    except Exception as ex:
        r["err"] = f"{type(ex).__name__}: {str(ex)[:1500]}"
        if not isinstance(ex, SP.Unsupported): r["err"] += "\n" + traceback.format_exc()[-1500:]
    e = T.e
    r["obs"] = [(o.name, o.status, round(o.time, 4), o.backend, o.detail, o.model) for o in e.obligs]
    r["inlined"] = sorted(e.inlined); r["contracts"] = sorted(e.used_contracts); r["externs"] = sorted(e.used_externs)
    r["assum"] = sorted(e.assumptions); r["checks"] = e.nchecks; r["stime"] = e.solver_time; r["loops"] = e.loop_log
    r["wall"] = time.time() - t0; r["covers"] = T.covers
    if not r["obs"] and not r["err"]: r["err"] = "no obligations were generated"
    return r

def replay(prop, tier, seed, tmp, drv=None, flags=()):
    """search for a failing input on the real code; -> (status, text)"""
    drv = drv or index.REPLAY.get(prop); REPLAY = globals()["REPLAY"] + index.FLAGS.get(drv, []) + list(flags)
    if not drv: return "none", "no replay driver"
    exe = os.path.join(tmp, "replay_" + drv); src = os.path.join(ROOT, "replay", drv + ".cpp")
    p = subprocess.run(REPLAY + [src, "-o", exe], capture_output=True, text=True, timeout=300)
    if p.returncode: return "nobuild", "replay driver does not build:\n" + p.stderr[:2000]
    wd = os.path.join(tmp, "wd_" + drv); os.makedirs(wd, exist_ok=True)
    env = dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0", UBSAN_OPTIONS="print_stacktrace=1")
    try: p = subprocess.run([exe, prop], capture_output=True, text=True, errors="replace", timeout=150 if tier == "quick" else 900, env=env, cwd=wd)
    except subprocess.TimeoutExpired as ex:
        o = (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
        return "fail", "replay driver does not terminate (time limit)\n" + o[-2000:]
    txt = f"$ {' '.join(REPLAY)} {src} -o replay && VERIF_SEED={seed} VERIF_TIER={tier} ./replay {prop}\n" + p.stdout[-4000:] + p.stderr[:6000]
    return ("pass" if p.returncode == 0 else "fail"), txt

def two_evaluations(tmp, limit, tier):
    """C24: the jobs, the results of comparing the two extractions, failures, and (property, driver) to execute when a contract fails"""
    import spec as SP, ce
    mods = {m for m, *_ in SP.ALL}; hs = sorted({sys.modules[m].HARNESS for m in mods})
    with mp.pool.ThreadPool(8) as tp: es = dict(zip([(h, k) for h in hs for k in (0, 1)], tp.starmap(lambda h, k: build(h, tmp, k), [(h, k) for h in hs for k in (0, 1)], 1)))
    fails, results, jobs, redo = [], [], [], []
    for h in hs:
        e = es[h, 0] or es[h, 1]
        if e: fails.append((f"{h}: the functions under contract are extracted from the current source", "undischarged", e)); continue
        t0 = time.time(); bc = [os.path.join(tmp, f"{h}.ce{k}.bc") for k in (0, 1)]; same, diff = ce.compare(*bc)
        r = dict(name=h, harness=h, obs=[(f"{h}: {f}: the same code in constant expressions and at run time", "ok", 0, "identical code", "", "") for f in same], err=None, inlined=[], contracts=[], externs=[], assum=[], checks=0, stime=0.0, wall=time.time() - t0, loops=[], covers=0)
        if h in index.CE_IDENTICAL:      # contracts that only bound the result: differing code gives differing results
            r["obs"] += [(f"{h}: {f}: the same code in constant expressions and at run time", "fail", 0, "identical code", "differs in " + ", ".join(d[:8]), "") for f, d in diff.items() if re.search(index.CE_IDENTICAL[h], f)]
        results.append(r)
        if h == "console" or diff: jobs += [(m, h, n, bc[1], limit, tier == "thorough") for m, n, f, kw, props in SP.ALL if sys.modules[m].HARNESS == h and ((m == "console_ce") == (h == "console"))]
        if diff: redo += sorted({(p, index.REPLAY[p]) for m, n, f, kw, props in SP.ALL if sys.modules[m].HARNESS == h and h != "console" for p in props if p in index.REPLAY and p != "C25"})
    return jobs, results, fails, redo

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix="vp_check_")
    try: code = go(prop, tier, seed, t0, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush(); os._exit(code)

def go(prop, tier, seed, t0, tmp):
    import spec as SP
    fails = []      # (obligation name, status, detail)
    results = []; jobs = []
    limit = 420 if tier == "quick" else 1500
    for m in index.SPECS[prop]:
        importlib.import_module(m)
    if prop == "C24": jobs, results, fails, redo = two_evaluations(tmp, limit, tier)
    else:
        redo = []
        todo = [(m, n, f) for m, n, f, kw, props in SP.ALL if prop in props]
        hs = sorted({sys.modules[m].HARNESS for m, n, f in todo})
        with mp.pool.ThreadPool(8) as tp: errs = dict(zip(hs, tp.map(lambda h: build(h, tmp), hs)))
        for h, e in errs.items():
            if e: fails.append((f"{h}: the functions under contract are extracted from the current source", "undischarged", e))
        jobs = [(m, sys.modules[m].HARNESS, n, os.path.join(tmp, sys.modules[m].HARNESS + ".bc"), limit, tier == "thorough") for m, n, f in todo if not errs[sys.modules[m].HARNESS]]
    if jobs:
        with mp.get_context("fork").Pool(min(8, len(jobs)), initializer=worker_limits, maxtasksperchild=None) as pool:
            it = pool.imap_unordered(run_task, jobs, chunksize=1)
            end = time.time() + (600 if tier == "quick" else 6000)
            got = set()
            for _ in jobs:
                try: r = it.next(timeout=max(1, end - time.time()))
                except mp.TimeoutError: break
                results.append(r); got.add((r["harness"], r["name"]))
                if os.environ.get("VERIF_FAST") and (r["err"] or any(o[1] != "ok" and not (prop in index.SKIP and re.search(index.SKIP[prop], o[0])) for o in r["obs"])): break   # development aid: stop at the first failing function
            pool.terminate()
        for j in jobs:
            if (j[1], j[2]) not in got and not os.environ.get("VERIF_FAST"): fails.append((j[2] + ": verified within the time limit", "undischarged", "timeout"))
    results.sort(key=lambda r: r["name"])
    for r in results:
        for n, s, t, be, d, mod in r["obs"]:
            if s != "ok" and not (prop in index.SKIP and re.search(index.SKIP[prop], n)): fails.append((n, "refuted" if s == "fail" else "undischarged", (d or "") + ("\n  counterexample to the obligation: " + mod if mod else "")))
        if r["err"]: fails.append((r["name"] + ": all obligations generated", "undischarged", r["err"]))
    nob = sum(len(r["obs"]) for r in results); ok = sum(1 for r in results for o in r["obs"] if o[1] == "ok")
    nfail = len(fails)
    # known findings
    known = []
    try:
        for l in open(os.path.join(ROOT, "known_findings.jsonl")):
            l = l.strip()
            if l.startswith("{"):
                k = json.loads(l)
                if k["property"] == prop: known.append(k)
    except FileNotFoundError: pass
    rest = []
    for f in fails:
        k = next((k for k in known if re.search(k["obligation"], f[0])), None)
        if k: k["_hit"] = 1
        else: rest.append(f)
    for k in known:
        if k.get("_hit"): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    rp = ("not needed", "")
    viol = 0
    bounded = index.BOUNDED.get(prop)
    if rest or bounded or tier == "thorough":
        rp = replay(prop, tier, seed, tmp)
        if prop == "C24" and rest and rp[0] != "fail":      # run the drivers of the parts that differ as in a constant expression
            end = time.time() + 120
            for p, d in redo:
                r2 = replay(p, "quick", seed, tmp, d, ["-include", os.path.join(ROOT, "harness", "ce.hpp"), "-DVP_CE=1"])
                if r2[0] == "fail": rp = r2; break
                if time.time() > end: break
        if rp[0] == "fail" or rest: viol = 1
        if rp[0] == "nobuild" and not rest: viol = 1
    be = {}
    for r in results:
        for o in r["obs"]: be[o[3]] = be.get(o[3], 0) + 1
    inl = sorted({x for r in results for x in r["inlined"]}); con = sorted({x for r in results for x in r["contracts"]})
    ext = sorted({x for r in results for x in r["externs"]})
    cov = dict(obligations=nob, discharged=ok, undischarged=nfail, tasks=len(results), functions_under_contract=sorted(r["name"] for r in results),
        functions_verified_from_source=[x for x in inl if not x.startswith("std::")][:400], library_functions_inlined=len([x for x in inl if x.startswith("std::")]),
        contracts_used_at_call_sites=con, solver_time_s=round(sum(r["stime"] for r in results), 2), solver_checks=sum(r["checks"] for r in results), back_ends=be,
        loops=sorted({l for r in results for l in r["loops"]})[:200], preconditions_checked_satisfiable=sum(r["covers"] for r in results),
        checker_cmd=f"./check {prop} {tier}", trusted_base=TRUSTED + ["assumed contract: " + x for x in ext],
        replay_driver=dict(status=rp[0], output=rp[1][-300:]))
    if bounded: cov["bounded_stand_ins"] = bounded
    ev = dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, violations=viol,
        assumptions=sorted({a for r in results for a in r["assum"]} | set(index.ASSUME.get(prop, [])) | set(ASSUME)), wall_s=round(time.time() - t0, 2))
    EVD = os.environ.get("VERIF_OUT", ROOT); os.makedirs(os.path.join(EVD, "evidence"), exist_ok=True)
    with open(os.path.join(EVD, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{prop}: {len(results)} functions under contract, {nob} obligations, {ok} discharged, {nfail} undischarged, {round(time.time()-t0,1)} s")
    if not viol and nob == 0: print("no obligations"); return 2
    if viol:
        OUTD = os.environ.get("VERIF_OUT", ROOT); os.makedirs(os.path.join(OUTD, "out"), exist_ok=True)
        path = os.path.join(OUTD, "out", f"replay_{prop}.txt")
        with open(path, "w") as f:
            f.write(f"property {prop}\n\nFAILED OBLIGATIONS ({len(rest)})\n")
            for n, s, d in rest[:60]: f.write(f"\n[{s}] {n}\n  {d}\n")
            f.write(f"\nREPLAY ON THE REAL CODE: {rp[0]}\n{rp[1]}\n")
        for n, s, d in rest[:12]: print(f"  [{s}] {n}")
        if rp[0] == "fail": print("  replay: " + next((l for l in rp[1].split("\n") if "FAIL" in l or "ERROR: " in l or "runtime error" in l), "failing input found")[:400])
        print(f"VIOLATION property={prop} replay={path}" + ("" if rp[0] == "fail" else " no-failing-input-found"))
        return 1
    return 0
TRUSTED = ["clang 18 front end and opt passes sroa/simplifycfg/early-cse (C++ to LLVM IR)", "dv/ (this verifier: VC generation over LLVM IR)", "Z3 5.3.2 / cvc5 1.1.2"]
ASSUME = ["operator new returns fresh storage of the requested size or throws; allocations are at most PTRDIFF_MAX bytes",
          "element type operations behave as value-semantic copy/move/destroy/compare and do not throw",
          "template code is verified for one instantiation with an opaque element type; other instantiations follow the same source"]
if __name__ == "__main__": main()
