"""development aid: create /verif/seeded/<id>/ from a textual change and a demo, and confirm it (tests pass, demo discriminates, which checks catch it)
usage: seed.py FILE [id-pattern]   FILE defines SEEDS = [dict(id, property, file, edits=[(old,new)], needs, breaks, demo)]"""
import sys, os, subprocess, json, shutil, tempfile
sys.path.insert(0, "/verif/dv"); import index
R = "/repo"
SH = """#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'cd /; rm -r -- "$d"' EXIT
clang++-18 -std=c++2a -w -g -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -fsized-deallocation -I"$PWD/include" "$here/demo.cpp" -o "$d/demo" || exit 2
cd "$d" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
"""
PRE = """#include <cstdio>
#include <cstdlib>
#define REQ(c) do { if (!(c)) { printf("FAILED: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
"""
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)
def main(f, pat=""):
    ns = {}; exec(open(f).read(), ns)
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    fixed = set()
    for s in ns["SEEDS"]:
        if pat and pat not in s["id"]: continue
        d = f"/verif/seeded/{s['id']}"; os.makedirs(d, exist_ok=True)
        p = f"{R}/include/cest/{s['file']}"; src = open(p).read(); new = src; bad = ""
        for o, n in s["edits"]:
            if new.count(o) < 1: bad = f"NO MATCH {o!r}"; break
            new = new.replace(o, n, 1)
        if bad: print(s["id"], bad); continue
        open(d + "/demo.cpp", "w").write(PRE + s["demo"]); open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        base = sh(["bash", d + "/demo.sh"], cwd=R)
        try:
            open(p, "w").write(new)
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            t = sh("bash /opt/vp/test.sh /tmp/seedt.json"); r = json.load(open("/tmp/seedt.json"))
            dm = sh(["bash", d + "/demo.sh"], cwd=R)
            ck = {}
            for pr in [s["property"]] + s.get("also", []):
                if pr in index.SPECS:
                    c = sh(["/verif/check", pr, "quick"], env=dict(os.environ, VERIF_OUT="/tmp/seedout"))
                    v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
                    ck[pr] = ("CAUGHT " + ("noinput" if "no-failing" in v[0] else "input") if c.returncode == 1 and v else f"missed rc={c.returncode}")
        finally: sh("git -C /repo checkout -- .")
        ok = base.returncode == 0 and dm.returncode not in (0, 2) and len(r["passed"]) == 328
        print(("ok  " if ok else "BAD "), s["id"], f"base={base.returncode} patched={dm.returncode} passed={len(r['passed'])}", ck, "" if ok else (base.stdout + base.stderr)[-600:] + (dm.stdout + dm.stderr)[-600:] + str(r["failed"][:3]), flush=True)
if __name__ == "__main__": main(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "")
