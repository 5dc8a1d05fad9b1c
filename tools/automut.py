"""development aid: generate small operator mutants of a header and find those the replay drivers do not detect; survivors are then put through the proofs.
usage: automut.py HEADER DRIVER[:ARG],... PROPS [stride] [offset]   -> lines SURVIVES/KILLED ..., then the proof's verdict for survivors"""
import sys, os, re, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = ["clang++-18", "-std=c++2a", "-w", "-O1", "-g1", "-fsized-deallocation", "-fno-access-control", "-fsanitize=address,undefined", "-fno-sanitize=unsigned-integer-overflow", "-fno-sanitize-recover=all"]
OPS = [(r" < (?!class|type)", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b1\b(?!\.)", "0"), (r"!(?=[a-zA-Z(])", ""), (r"\+\+", "--"), (r"--", "++"), (r"\+=", "-="), (r"-=", "+="), (r"(?<=[=( ])&(?=[a-z(*])", ""),
       (r"\bif \((?!constexpr)(.*)\)(?= |$)", "if (true)"), (r"\bif \((?!constexpr)(.*)\)(?= |$)", "if (false)"), (r"\belse if\b", "if"), (r"std::move\(([a-z_.]+)\)", r"\1"), (r"\bmin\b", "max"), (r"\bm_p\b", "p"), (r" \* ", " + "), (r" / ", " * "), (r"\b(\d+\.\d+)\b", r"(\1*1.01)")]
def muts(src):
    out = []; com = False
    for n, l in enumerate(src.split("\n")):
        c = l.split("//")[0]
        if com or c.strip().startswith("/*"): com = "*/" not in c; continue
        s = c.strip()
        if not s or s.startswith(("#", "template", "using", "typedef", "friend", "namespace", "static_assert", "class", "struct", "concept")): continue
        for rx, to in OPS:
            for m in re.finditer(rx, c):
                out.append((n, c[:m.start()] + m.expand(to) + c[m.end():]))
        if s.endswith(";") and not re.match(r"(return|constexpr|const|auto|size_type|using|T |Node|static|bool|int|unsigned|case|break)\b", s) and re.match(r"[a-zA-Z_:*(+\-]", s) and not re.match(r"[\w:<>]+[ *&]+\w+( =|;|\()", s): out.append((n, re.match(r"\s*", c)[0] + ";"))
    seen = set(); r = []
    for x in out:
        if x not in seen: seen.add(x); r.append(x)
    return r
def run(job):
    k, hdr, n, new, drivers, props = job
    d = tempfile.mkdtemp(prefix="am_"); shutil.copytree("/repo/include", d + "/include")
    p = d + "/include/cest/" + hdr; L = open(p).read().split("\n"); old = L[n]; L[n] = new; open(p, "w").write("\n".join(L))
    res = "SURVIVES"
    try:
        for drv in drivers:
            dn, _, arg = drv.partition(":")
            r = subprocess.run(CXX + ["-I" + d + "/include", f"{ROOT}/replay/{dn}.cpp", "-o", d + "/x"], capture_output=True, text=True)
            if r.returncode: res = "NOBUILD"; break
            wd = d + "/wd"; os.makedirs(wd, exist_ok=True); bad = None
            for a in (arg.split("+") if arg else [""]):
                try: r = subprocess.run(["timeout", "-s", "KILL", "100", "bash", "-c", "ulimit -c 0; exec \"$@\"", "x", d + "/x", a], capture_output=True, cwd=wd, timeout=110, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0:hard_rss_limit_mb=3000"))
                except subprocess.TimeoutExpired: bad = "TIME"; break
                if r.returncode: bad = "KILLED"; break
            if bad: res = bad; break
        if res == "SURVIVES":
            for pr in props:
                r = subprocess.run([ROOT + "/check", pr, "quick"], capture_output=True, text=True, env=dict(os.environ, CEST_REPO=d, VERIF_OUT=d, VERIF_FAST="1"))
                v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]; ob = [l.strip() for l in r.stdout.split("\n") if l.startswith("  ")]
                res += f" {pr}:{r.returncode}{'' if not v else ' noinput' if 'no-failing' in v[0] else ' INPUT'} " + " | ".join(x[:110] for x in ob[:1])
    finally: shutil.rmtree(d, ignore_errors=True)
    return k, n, old, new, res
if __name__ == "__main__":
    hdr, drv, props = sys.argv[1:4]; stride = int(sys.argv[4]) if len(sys.argv) > 4 else 1; off = int(sys.argv[5]) if len(sys.argv) > 5 else 0
    M = muts(open("/repo/include/cest/" + hdr).read()); print(len(M), "mutants", flush=True)
    jobs = [(k, hdr, n, new, drv.split(","), [x for x in props.split(",") if x]) for k, (n, new) in enumerate(M)][off::stride]
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "8"))) as ex:
        for k, n, old, new, res in ex.map(run, jobs):
            w = res.split()[0]; cnt[w] = cnt.get(w, 0) + 1
            if w in ("SURVIVES", "TIME"): print(f"#{k} L{n+1}: {old.strip()}\n      -> {new.strip()}\n      {res}", flush=True)
    print(cnt)
