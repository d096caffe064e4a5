"""Development aid: mutants of a module judged by the contracts alone (no bounded suites): lists those no obligation refutes.
   python3 tools/cmutate.py MODULE_PATH PROP [--lines A-B] [--workers W]"""
import argparse, ast, copy, os, queue, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutate import sites, HERE

ap = argparse.ArgumentParser()
ap.add_argument("module")
ap.add_argument("prop")
ap.add_argument("--lines", default="")
ap.add_argument("--workers", type=int, default=6)
ap.add_argument("--max", type=int, default=10 ** 6)
ap.add_argument("--repo", default="/repo")
a = ap.parse_args()
src = open(f"{a.repo}/{a.module}").read()
tree = ast.parse(src)
S = sites(tree)
if a.lines:
    lo, hi = map(int, a.lines.split("-"))
    S = [s for s in S if lo <= s[1] <= hi]
random.Random(1).shuffle(S)
S = sorted(S[:a.max], key=lambda s: s[1])
tmp = tempfile.mkdtemp(prefix="cmut_")
pool = queue.Queue()
for w in range(a.workers):
    d = f"{tmp}/w{w}"
    shutil.copytree(f"{a.repo}/src/python", d + "/src/python", ignore=shutil.ignore_patterns("__pycache__"))
    pool.put(d)


def one(site):
    k, ln, what, f = site
    t = copy.deepcopy(tree)
    f(list(ast.walk(t))[k])
    ast.fix_missing_locations(t)
    txt = ast.unparse(t)
    if txt == ast.unparse(tree):
        return None
    d = pool.get()
    try:
        open(f"{d}/{a.module}", "w").write(txt)
        r = subprocess.run(["python3-vt", f"{HERE}/prove.py", a.prop], env=dict(os.environ, PYVC_REPO=d), capture_output=True, text=True, timeout=900)
        o = r.stdout.splitlines()
        res = "refuted" if any(l.startswith("refuted") for l in o) else "undecided" if any(l.startswith("undec") for l in o) else "SURVIVED"
        return ln, what, res, src.splitlines()[ln - 1].strip()[:100]
    finally:
        open(f"{d}/{a.module}", "w").write(src)
        pool.put(d)


with ThreadPoolExecutor(a.workers) as ex:
    rs = [r for r in ex.map(one, S) if r]
for r in rs:
    if r[2] != "refuted":
        print(r[2], f"{r[0]} [{r[1]}] {r[3]}")
print({k: sum(r[2] == k for r in rs) for k in ("refuted", "undecided", "SURVIVED")})
shutil.rmtree(tmp, ignore_errors=True)
