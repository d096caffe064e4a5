"""Development aid: generate small AST mutants of a module of the code under test, run the bounded suites of its properties on
each and list the survivors.   python3 tools/mutate.py MODULE_PATH PROPS [--max N] [--workers W] [--out FILE]"""
import argparse, ast, pathlib, copy, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv],
       ast.Pow: [ast.Mult], ast.MatMult: [], ast.BitXor: [ast.BitOr], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift]}


def sites(tree):
    """(description, function applying the mutation to a copy's node)"""
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0].value))
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None:
                skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("warn", "TypeVar", "NewType", "namedtuple", "print", "overload"):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                skip |= {id(x) for x in ast.walk(d)}
    infun = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            infun |= {id(x) for x in ast.walk(n)} - {id(n)}
    nodes = [n for n in ast.walk(tree)]
    for k, n in enumerate(nodes):
        if id(n) in skip or id(n) not in infun:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for j, o in enumerate(n.ops):
                for r in CMP.get(type(o), []):
                    out.append((k, ln, f"{type(o).__name__}->{r.__name__}", lambda m, j=j, r=r: m.ops.__setitem__(j, r())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for r in BIN.get(type(n.op), []):
                out.append((k, ln, f"{type(n.op).__name__}->{r.__name__}", lambda m, r=r: setattr(m, "op", r())))
        elif isinstance(n, ast.BoolOp):
            r = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append((k, ln, f"bool->{r.__name__}", lambda m, r=r: setattr(m, "op", r())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub,)):
            out.append((k, ln, "drop minus", lambda m: setattr(m, "op", ast.UAdd())))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((k, ln, "drop not", lambda m: (setattr(m, "op", ast.Not()), setattr(m, "operand", ast.UnaryOp(ast.Not(), m.operand)))))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((k, ln, f"{n.value}->+1", lambda m: setattr(m, "value", m.value + 1)))
            if n.value not in (0,):
                out.append((k, ln, f"{n.value}->0", lambda m: setattr(m, "value", type(m.value)(0))))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((k, ln, f"not {n.value}", lambda m: setattr(m, "value", not m.value)))
        elif isinstance(n, ast.If):
            out.append((k, ln, "if False", lambda m: setattr(m, "test", ast.BoolOp(ast.And(), [m.test, ast.Constant(False)]))))
            out.append((k, ln, "if True", lambda m: setattr(m, "test", ast.BoolOp(ast.Or(), [m.test, ast.Constant(True)]))))
        elif isinstance(n, ast.IfExp):
            out.append((k, ln, "ifexp False", lambda m: setattr(m, "test", ast.Constant(False))))
            out.append((k, ln, "ifexp True", lambda m: setattr(m, "test", ast.Constant(True))))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args[:2]) and getattr(n.func, "id", "") not in ("isinstance", "getattr"):
            out.append((k, ln, "swap args", lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])))
        elif isinstance(n, ast.Call) and getattr(n.func, "id", "") in ("sorted", "reversed", "set", "abs", "list", "tuple", "deepcopy") and len(n.args) >= 1:
            def repl(m):
                m.func, m.args, m.keywords = ast.Lambda(ast.arguments([], [ast.arg("x")], None, [], [], None, []), ast.Name("x", ast.Load())), m.args[:1], []
            out.append((k, ln, f"drop {n.func.id}", repl))
        elif isinstance(n, ast.Call) and n.keywords:
            for j in range(len(n.keywords)):
                if n.keywords[j].arg:
                    out.append((k, ln, f"drop keyword {n.keywords[j].arg}", lambda m, j=j: m.keywords.pop(j)))
        elif isinstance(n, ast.Slice):
            for f in ("lower", "upper", "step"):
                if getattr(n, f) is not None:
                    out.append((k, ln, f"drop slice {f}", lambda m, f=f: setattr(m, f, None)))
        elif isinstance(n, ast.comprehension) and n.ifs:
            out.append((k, ln, "drop comprehension condition", lambda m: m.ifs.clear()))
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            out.append((k, ln, "return None", lambda m: setattr(m, "value", ast.Constant(None))))
        elif isinstance(n, (ast.Continue,)):
            out.append((k, ln, "continue->pass", lambda m: None))
    # statement deletion
    for k, n in enumerate(nodes):
        if id(n) not in infun and not isinstance(n, ast.FunctionDef):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, (ast.AugAssign, ast.Assign, ast.Delete, ast.Break, ast.Continue)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                            or isinstance(s, (ast.Raise, ast.Assert)):
                        out.append((k, s.lineno, f"delete: {ast.unparse(s)[:60]}", lambda m, f=f, j=j: getattr(m, f).__setitem__(j, ast.Pass())))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("props")
    ap.add_argument("--max", type=int, default=10 ** 6)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--lines", default="")
    ap.add_argument("--out", required=True)
    a = ap.parse_args()
    src = open(f"/repo/{a.module}").read()
    tree = ast.parse(src)
    S = sites(tree)
    if a.lines:
        lo, hi = map(int, a.lines.split("-"))
        S = [s for s in S if lo <= s[1] <= hi]
    random.Random(1).shuffle(S)
    S = S[:a.max]
    pool = queue.Queue()
    tmp = tempfile.mkdtemp(prefix="mut_")
    for w in range(a.workers):
        d = f"{tmp}/w{w}"
        os.makedirs(d + "/src")
        shutil.copytree("/repo/src/python", d + "/src/python", ignore=shutil.ignore_patterns("__pycache__"))
        for x in os.listdir("/repo"):
            if x not in (".git", "src") and not os.path.exists(f"{d}/{x}"):
                os.symlink(f"/repo/{x}", f"{d}/{x}")
        pool.put(d)
    out = open(a.out, "a")
    tally = {"caught": 0, "survived": 0, "error": 0}

    def one(site):
        k, ln, what, f = site
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[k]
        f(n)
        ast.fix_missing_locations(t)
        try:
            txt = ast.unparse(t)
            compile(txt, "m", "exec")
        except Exception:
            return
        if txt == ast.unparse(tree):
            return
        d = pool.get()
        try:
            pathlib.Path(f"{d}/{a.module}").write_text(txt)
            res = "survived"
            for p in a.props.split(","):
                o = tempfile.mktemp(dir=d)
                run = tempfile.mkdtemp(dir=d)
                cmd = f'. /opt/vp/env.sh; export PYTHONPATH={d}/src/python:{d}; exec "$PY" {HERE}/native/run.py {p} --seed 1 --tier quick --jobs 2 --out {o}'
                try:
                    pr = subprocess.run(["bash", "-c", cmd], cwd=run, capture_output=True, text=True, timeout=500)
                    if not os.path.exists(o):
                        print(pr.stdout[-300:], pr.stderr[-700:], file=sys.stderr)
                    r = json.load(open(o))
                    if any(c["failures"] for c in r):
                        res = "caught"
                    elif any(c["error"] for c in r) and res != "caught":
                        res = "error"
                except Exception:
                    res = "error"
                shutil.rmtree(run, ignore_errors=True)
                if res == "caught":
                    break
            tally[res] += 1
            if res != "caught":
                orig = src.splitlines()[ln - 1].strip() if ln else ""
                out.write(f"{res} {a.module.split('core/')[-1]}:{ln} [{what}] {orig[:110]}\n")
                out.flush()
        finally:
            pathlib.Path(f"{d}/{a.module}").write_text(src)
            pool.put(d)
    t0 = time.time()
    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, S))
    out.write(f"# {a.module} {a.props}: {tally} {time.time() - t0:.0f}s\n")
    out.close()
    shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    main()
