"""fills the generated parts of DESIGN.md: the list of fixes (known_findings.jsonl) and the table of planted changes (seeded/*/meta.json + tools/caught.json)"""
import json, os, re, glob
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(R, "DESIGN.md"); s = open(p).read()
fx = []
for l in open(os.path.join(R, "known_findings.jsonl")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
    if m: fx.append(f"* {m[1]} ({m[2]}): {m[3]}")
cg = json.load(open(os.path.join(R, "tools", "caught.json"))) if os.path.exists(os.path.join(R, "tools", "caught.json")) else {}
rows = ["| id | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(R, "seeded", "*"))):
    m = json.load(open(d + "/meta.json")); i = os.path.basename(d)
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {cg.get(i, '?')} |")
def fill(tag, lines):
    global s
    a, b = f"<!-- {tag} -->", f"<!-- end {tag} -->"; i, j = s.index(a) + len(a), s.index(b); s = s[:i] + "\n" + "\n".join(lines) + "\n" + s[j:]
fill("fixes", fx); fill("seeds", rows); open(p, "w").write(s)
