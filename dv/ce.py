"""C24: the code under contract is extracted twice, once answering every std::is_constant_evaluated() in the library with true
and once with false.  A function whose extracted code (and that of everything it can reach) is the same in both gives the same
results in both; where the code differs, every contract written over that extraction has to hold of the constant-evaluated code too."""
import os, re, subprocess
PRE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "ce.hpp")
def funcs(bc):
    """normalised text of every function and global of a module: {name: (text, referenced names)}"""
    t = subprocess.run(["/usr/bin/opt", "-strip-debug", "-S", bc, "-o", "-"], capture_output=True, text=True, check=True).stdout
    strs = dict(re.findall(r'^(@\.str[.\d]*) = [^\n]*constant ([^\n]*?)(?:, align \d+)?$', t, re.M))
    def norm(s):
        s = re.sub(r", ![\w.]+ !\d+", "", s); s = re.sub(r" #\d+", "", s)
        return re.sub(r"@\.str[.\d]*", lambda m: strs.get(m[0], m[0]), s)
    r = {}
    for m in re.finditer(r'^define [^\n]*?@("[^"]+"|[\w.$]+)\((?:[^\n]*)\{\n.*?^\}', t, re.M | re.S): r[m[1].strip('"')] = norm(m[0])
    for m in re.finditer(r'^@("[^"]+"|[\w.$]+) = ([^\n]*)', t, re.M):
        if not m[1].startswith(".str"): r[m[1].strip('"')] = norm(m[2])
    return {k: (v, {x.strip('"') for x in re.findall(r'@("[^"]+"|[\w.$]+)', v)} - {k}) for k, v in r.items()}
def compare(bc0, bc1):
    """-> (entries whose code is the same in both evaluations, {entry: the functions in which it differs})"""
    a, b = funcs(bc0), funcs(bc1); same, diff = [], {}
    cl = {}
    for f in sorted(k for k in set(a) | set(b) if not k.startswith("_") and not k.startswith("llvm.") and ((a.get(k) or b.get(k))[0].startswith("define"))):
        seen, work, d = set(), [f], []
        while work:
            x = work.pop()
            if x in seen: continue
            seen.add(x)
            if (x in a) != (x in b) or x in a and a[x][0] != b[x][0]: d.append(x)
            for m in (a, b):
                if x in m: work += m[x][1]
        if d: diff[f] = d
        else: same.append(f)
    return same, diff
