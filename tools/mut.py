"""development aid: run checks against small textual mutants of the headers (in a scratch copy of /repo)"""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed
def one(job):
    i, f, old, new, props = job
    d = tempfile.mkdtemp(prefix="mut_"); shutil.copytree(os.environ.get("BASE", "/repo") + "/include", d + "/include")
    p = d + "/include/cest/" + f; s = open(p).read()
    for o, nw in (old if isinstance(old, list) else [(old, new)]):  # (text, n): its n-th occurrence; (text, 0): all
        n = 1
        if isinstance(o, tuple): o, n = o
        if s.count(o) < max(n, 1): return i, f, str(o), nw, "NO MATCH", ""
        if not n: s = s.replace(o, nw); continue
        k = -1
        for _ in range(n): k = s.index(o, k + 1)
        s = s[:k] + nw + s[k + len(o):]
    if isinstance(old, list): old, new = str(old[0][0]), old[0][1]
    open(p, "w").write(s)
    res = []
    for pr in props:
        r = subprocess.run([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/check", pr, "quick"], capture_output=True, text=True, env=dict(os.environ, CEST_REPO=d, VERIF_OUT=d, VERIF_FAST="1"))
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]; ob = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ")]
        res.append(f"{pr}:{r.returncode}{'' if not v else ' noinput' if 'no-failing' in v[0] else ' INPUT'} " + (" | ".join(x[:150] for x in ob[:2] + ob[-1:])) + (r.stderr[-200:] if r.returncode not in (0, 1) else ""))
    shutil.rmtree(d)
    return i, f, old, new, "", "\n        ".join(res)
def main(muts, pat=""):
    jobs = [(i, *m) for i, m in enumerate(muts) if not pat or (pat in str(m) if not re.fullmatch(r"#[0-9,]+", pat) else str(i) in pat[1:].split(","))]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for fu in as_completed([ex.submit(one, j) for j in jobs]):
            i, f, old, new, e, r = fu.result()
            print(f"#{i} {f}: {old.strip()[:60]!r} -> {new.strip()[:60]!r}: {e}\n        {r}", flush=True)
if __name__ == "__main__":
    ns = {}; exec(open(sys.argv[1]).read(), ns); main(ns["M"], sys.argv[2] if len(sys.argv) > 2 else "")
