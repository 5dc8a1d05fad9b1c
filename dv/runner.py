import sys, os, time, traceback, importlib, subprocess, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "dv"), os.path.join(ROOT, "specs")]
REPO = os.environ.get("CEST_REPO", "/repo")
def build(h, out):
    bc0 = os.path.join(out, h + ".0.bc"); bc = os.path.join(out, h + ".bc")
    subprocess.run(["/usr/bin/clang++-18", "-std=c++2a", "-w", "-I" + REPO + "/include", "-O1", "-Xclang", "-disable-llvm-passes",
        "-g1", "-fno-access-control", "-fsized-deallocation", "-emit-llvm", "-c", os.path.join(ROOT, "harness", h + ".cpp"), "-o", bc0], check=True)
    subprocess.run(["/usr/bin/opt", "-passes=sroa,simplifycfg,early-cse", bc0, "-o", bc], check=True)
    return bc
def main():
    spec = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ""
    import spec as SP
    mod = importlib.import_module(spec)
    import llvmir
    os.makedirs("/tmp/dvb", exist_ok=True)
    bc = build(mod.HARNESS, "/tmp/dvb"); m = llvmir.Module(bc)
    seen = set()
    for p, ts in SP.TASKS.items():
        for n, f, kw in ts:
            if n in seen or pat not in n: continue
            seen.add(n)
            T = SP.Task(m, n); t0 = time.time()
            err = None
            try: f(T)
            except Exception as ex:
                err = f"{type(ex).__name__}: {ex}"
                if "-v" in sys.argv: traceback.print_exc()
            bad = [o for o in T.e.obligs if o.status != "ok"]
            print(f"{'OK ' if not bad and not err and T.e.obligs else 'BAD'} {n}: {len(T.e.obligs)} obligations, {len(bad)} failed, {time.time()-t0:.2f}s {T.e.nchecks} checks", err or "")
            for o in bad[:8]: print("     ", o.status, o.name); print("        ", (o.detail or "")[:600]) if "-v" in sys.argv else 0; 
            if "-v" in sys.argv:
                print(T.e.loop_log)
                for o in bad[:3]: print(o.model)
if __name__ == "__main__": main()
