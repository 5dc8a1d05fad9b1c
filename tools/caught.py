"""development aid: run each seeded change's check on a copy of the headers and record the outcome in tools/caught.json
usage: caught.py [id-substring]"""
import sys, os, json, subprocess, shutil, tempfile
V = "/verif"; J = V + "/tools/caught.json"
res = json.load(open(J)) if os.path.exists(J) else {}
pat = sys.argv[1] if len(sys.argv) > 1 else ""
ids = sorted(os.listdir(V + "/seeded")); res = {k: v for k, v in res.items() if k in ids}
def one(i):
    if pat and pat not in i or not pat and i in res: return
    pr = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    t = tempfile.mkdtemp(prefix="vp_caught_")
    try:
        shutil.copytree(os.environ.get("BASE", "/repo") + "/include", t + "/include")
        a = subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + t, f"{V}/seeded/{i}/patch.diff"], cwd="/", capture_output=True, text=True)
        if a.returncode: print(i, "DOES NOT APPLY", a.stderr); return
        c = subprocess.run([V + "/check", pr, "quick"], env=dict(os.environ, CEST_REPO=t, VERIF_OUT=t + "/o"), capture_output=True, text=True)
        v = [l for l in c.stdout.split("\n") if l.startswith("VIOLATION")]
        k = [l for l in c.stdout.split("\n") if " functions under contract" in l]
        import re
        n = int((re.findall(r"(\d+) undischarged", k[0] if k else "") or ["0"])[0])
        res[i] = f"{pr}: " + (f"MISSED rc={c.returncode}" if not v else (f"{n} obligations" if n else "bounded stand-in") + ("" if "no-failing" in v[0] else ", failing input"))
        print(i, res[i], k[:1], flush=True)
    finally: shutil.rmtree(t, ignore_errors=True)
    json.dump(res, open(J, "w"), indent=0, sort_keys=True)

from concurrent.futures import ThreadPoolExecutor
with ThreadPoolExecutor(int(os.environ.get('J', '1'))) as ex: list(ex.map(one, ids))
